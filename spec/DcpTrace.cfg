SPECIFICATION TraceSpec
CONSTANTS
  Threads <- TraceThreads
  Description <- TraceDescription
  Handles <- TraceHandles
INVARIANTS TraceInv
CONSTRAINT Go
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
