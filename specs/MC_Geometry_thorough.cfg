SPECIFICATION Spec
CONSTANTS
  R = 3
  RD = 2
INVARIANTS OnShape BoxAgrees EnterLeave Rigid
CHECK_DEADLOCK FALSE
