SPECIFICATION Spec
CONSTANTS
  Variant = "none-read"
  ObjStates = {"ok", "missing", "dir", "binary"}
  LibStates = {"ok", "missing", "dir", "binary", "colour"}
  ImgStates = {"ok", "missing", "garbage", "truncated"}
INVARIANTS Honest
CHECK_DEADLOCK FALSE
