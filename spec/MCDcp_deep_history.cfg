SPECIFICATION MCSpec
CONSTANTS
  Threads = {t1}
  Description = "d"
  Handles = {"s1", "s2"}
  MaxCalls = 5
  Calls <- Single
  Converts <- NoteConverts
INVARIANTS TypeOK OneContext OneDescription Alone Framed StringsLive
PROPERTIES OnlyWriters StringsKept ContextStays EveryCallEnds
