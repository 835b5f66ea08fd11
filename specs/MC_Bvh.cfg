SPECIFICATION Spec
CONSTANTS
  Los <- MCLos
  His <- MCHis
  Lanes = {1, 2}
  Lane = 1
  MaxN = 3
  Mins <- MCMins
  Maxs = {1, 3}
  Bug = "none"
INVARIANTS FindsNearest SoundSoFar Partition Enclosed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
