SPECIFICATION Spec
CONSTANTS
  Top = 66000
  W = 4
  H = 3
  R = 2
  Lit = 2
INVARIANTS ToneProps WeightProps BloomProps Uniform
POSTCONDITION Checked
CHECK_DEADLOCK FALSE
