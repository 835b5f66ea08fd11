SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Variant = "right"
INVARIANTS ReadsWhatIsMeant AllPlane Covered
POSTCONDITION Written
CHECK_DEADLOCK FALSE
