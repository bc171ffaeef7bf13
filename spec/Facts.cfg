INIT FInit
NEXT FNext
CONSTRAINT Go
POSTCONDITION Explained
CHECK_DEADLOCK FALSE
