SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Lanes = 4
  Reach = 16
  MaxW = 7
  MaxH = 2
  MaxPad = 5
  Policy = "whole"
CHECK_DEADLOCK FALSE
INVARIANTS LoadsInside Once Same
PROPERTIES Ends
