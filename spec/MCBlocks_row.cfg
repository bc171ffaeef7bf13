SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Lanes = 4
  Reach = 16
  MaxW = 9
  MaxH = 2
  MaxPad = 3
  Policy = "row"
CHECK_DEADLOCK FALSE
INVARIANTS LoadsInside Once Same
