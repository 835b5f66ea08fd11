SPECIFICATION Spec
CONSTANTS
  R = 2
  RD = 1
INVARIANTS OnShape BoxAgrees EnterLeave Rigid
CHECK_DEADLOCK FALSE
