SPECIFICATION TSpec
CONSTANTS
  Judge <- MyJudge
  Chunks = 16
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
