SPECIFICATION Spec
CONSTANTS
  Spacing = 51
  Centre = 128
CHECK_DEADLOCK FALSE
INVARIANTS WrapHarmless
