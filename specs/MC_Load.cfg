SPECIFICATION Spec
CONSTANTS
  Variant = "any"
  ObjStates = {"ok", "missing", "dir", "binary"}
  LibStates = {"ok", "missing", "dir", "binary", "colour"}
  ImgStates = {"ok", "missing", "garbage", "truncated"}
INVARIANTS Honest
POSTCONDITION Written
CHECK_DEADLOCK FALSE
