SPECIFICATION MCSpec
CONSTANTS
  Threads = {t1, t2}
  Description = "d"
  Handles = {"s1", "s2"}
  MaxCalls = 2
  Calls <- Strings0
  Finish <- LossyFinish
  Converts <- NoteConverts
INVARIANTS TypeOK OneContext OneDescription Alone Framed StringsLive
PROPERTIES OnlyWriters StringsKept ContextStays EveryCallEnds
