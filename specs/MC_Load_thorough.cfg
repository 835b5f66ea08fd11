SPECIFICATION Spec
CONSTANTS
  Variant = "any"
  ObjStates = {"ok", "missing", "dir", "binary"}
  LibStates = {"ok", "missing", "dir", "binary", "colour", "number", "nameless"}
  ImgStates = {"ok", "missing", "garbage", "truncated", "empty", "text", "dir", "header"}
INVARIANTS Honest
POSTCONDITION Written
CHECK_DEADLOCK FALSE
