SPECIFICATION Spec
CONSTANTS
  Seeds = {1}
  Pads = {0, 3}
  Sizes <- Sizes1
  Careless = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Frame Overwrites LayoutFree OneOrTwo Alpha Local Uniform ThereAndBack
