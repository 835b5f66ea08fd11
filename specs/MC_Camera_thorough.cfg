SPECIFICATION Spec
CONSTANTS
  K = 3
INVARIANTS FrameOK ViewOK
POSTCONDITION Checked
CHECK_DEADLOCK FALSE
