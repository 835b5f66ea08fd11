SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Variant = "right"
INVARIANTS ReadsWhatIsMeant AllPlane Covered
POSTCONDITION Written
CHECK_DEADLOCK FALSE
