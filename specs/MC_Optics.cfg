SPECIFICATION Spec
CONSTANTS
  Span = 3
  Normals <- NormalsDef
  Indices <- IndicesDef
  Swapped = FALSE
INVARIANTS MirrorLaw NoTotalIntoDenser NormalIncidence SchlickBounds BlendTotal
CHECK_DEADLOCK FALSE
