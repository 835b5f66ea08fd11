SPECIFICATION Spec
CONSTANTS
  K = 2
INVARIANTS FrameOK ViewOK
POSTCONDITION Checked
CHECK_DEADLOCK FALSE
