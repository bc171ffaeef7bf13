INIT PairInit
NEXT PairNext
CONSTANTS
  Threads <- PairThreads
  Description = "none"
  Handles <- PairHandles
INVARIANTS IsProper
CONSTRAINT Go
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
