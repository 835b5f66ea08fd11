SPECIFICATION Spec
CONSTANTS
  R = 1
INVARIANTS Laws ReflectLaws DistanceLaws IvLaws

CHECK_DEADLOCK FALSE
