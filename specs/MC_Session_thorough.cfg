SPECIFICATION Spec
CONSTANTS
  Configs <- MCConfigs
  MaxN = 4
  MaxClock = 4
INVARIANTS TypeOK Ordered NoneSkipped Complete_ NoReportsZero Images NoSampleAfterAbort
  NoImageAfterAbort AbortIsSuccess NoLightIsError LostIsError FailedChainIsError
PROPERTIES Ends EverythingDelivered
CHECK_DEADLOCK FALSE
