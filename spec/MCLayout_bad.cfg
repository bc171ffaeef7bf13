SPECIFICATION Spec
CONSTANTS
  MaxW = 2
  MaxH = 4
  MaxStride = 9
  Slack = 3
  Sloppy = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS FitsHolds
