SPECIFICATION Spec
CONSTANTS
  Top = 66000
  W = 5
  H = 3
  R = 2
  Lit = 3
INVARIANTS ToneProps WeightProps BloomProps Uniform
POSTCONDITION Checked
CHECK_DEADLOCK FALSE
