SPECIFICATION Spec
CONSTANTS
  Span = 5
  Normals <- NormalsDef
  Indices <- IndicesDef
  Swapped = FALSE
INVARIANTS MirrorLaw NoTotalIntoDenser NormalIncidence SchlickBounds BlendTotal
CHECK_DEADLOCK FALSE
