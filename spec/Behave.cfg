INIT BInit
NEXT BNext
CONSTANTS
  Threads <- BThreads
  Description = "D"
  Handles <- BHandles
  Objects <- BObjects
  ObjectSize = 300
  MaxCalls = 24
INVARIANTS BInv Write
CHECK_DEADLOCK FALSE
