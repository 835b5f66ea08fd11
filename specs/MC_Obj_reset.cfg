SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Variant = "reset"
INVARIANTS ReadsWhatIsMeant AllPlane Covered
CHECK_DEADLOCK FALSE
