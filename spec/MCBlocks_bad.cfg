SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Lanes = 4
  Reach = 16
  MaxW = 6
  MaxH = 2
  MaxPad = 5
  Policy = "whole"
CHECK_DEADLOCK FALSE
INVARIANTS LoadsInside Once Same
