SPECIFICATION Spec
CONSTANTS
  R = 2
INVARIANTS Laws ReflectLaws DistanceLaws IvLaws

CHECK_DEADLOCK FALSE
