SPECIFICATION Spec
CONSTANTS
  Seeds = {1}
  Pads = {0, 3}
  Sizes <- Sizes3
  Careless = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS CarelessSeen
