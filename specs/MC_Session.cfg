SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  MaxN = 3
  MaxClock = 3
INVARIANTS TypeOK Ordered NoneSkipped Complete_ NoReportsZero Images NoSampleAfterAbort
  NoImageAfterAbort AbortIsSuccess NoLightIsError LostIsError FailedChainIsError
PROPERTIES Ends EverythingDelivered
CHECK_DEADLOCK FALSE
