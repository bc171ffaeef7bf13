SPECIFICATION Spec
CONSTANTS
  Spacing = 5
  Centre = 128
CHECK_DEADLOCK FALSE
INVARIANTS InRange Grey Monotone Mean ThereNear BackNear Neutral Bytes ThereAndBack VectorAgrees
