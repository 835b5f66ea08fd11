SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Variant = "late"
INVARIANTS ReadsWhatIsMeant AllPlane Covered
CHECK_DEADLOCK FALSE
