SPECIFICATION Spec
CONSTANTS
  Spacing = 51
  Centre = 127
CHECK_DEADLOCK FALSE
INVARIANTS Neutral
