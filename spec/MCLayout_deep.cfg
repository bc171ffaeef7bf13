SPECIFICATION Spec
CONSTANTS
  MaxW = 7
  MaxH = 6
  MaxStride = 17
  Slack = 3
  Sloppy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS FitsBytes FitsHolds Sharp Suffices SizeExact Injective ZeroIsPacked OneRowLength Agrees OneOrTwo
