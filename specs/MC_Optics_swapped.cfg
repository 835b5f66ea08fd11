SPECIFICATION Spec
CONSTANTS
  Span = 3
  Normals <- NormalsDef
  Indices <- IndicesDef
  Swapped = TRUE
INVARIANTS MirrorLaw NoTotalIntoDenser NormalIncidence SchlickBounds BlendTotal
CHECK_DEADLOCK FALSE
