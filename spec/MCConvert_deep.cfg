SPECIFICATION Spec
CONSTANTS
  Seeds = {1, 2, 3}
  Pads = {0, 1, 3}
  Sizes <- Sizes2
  Careless = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Frame Overwrites LayoutFree OneOrTwo Alpha Local Uniform ThereAndBack
