SPECIFICATION Spec
CONSTANTS
  MaxM = 9
  Grid = 20
INVARIANTS IsMeasure Malley Eighth AcceptedInside Even
CHECK_DEADLOCK FALSE
