SPECIFICATION Spec
CONSTANTS
  Los <- MCLos
  His <- MCHis
  Lanes = {1, 2}
  Lane = 1
  MaxN = 3
  Mins <- MCMins
  Maxs = {1, 3}
  Bug = "noshrink"
INVARIANTS FindsNearest SoundSoFar Partition Enclosed
CHECK_DEADLOCK FALSE
