SPECIFICATION Spec
CONSTANTS
  MaxW = 4
  MaxH = 4
  MaxStride = 9
  Slack = 3
  Sloppy = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS FitsBytes FitsHolds Sharp Suffices SizeExact Injective ZeroIsPacked OneRowLength Agrees OneOrTwo
