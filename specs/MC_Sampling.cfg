SPECIFICATION Spec
CONSTANTS
  MaxM = 6
  Grid = 6
INVARIANTS IsMeasure Malley Eighth AcceptedInside Even
CHECK_DEADLOCK FALSE
