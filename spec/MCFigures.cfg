SPECIFICATION Spec
CONSTANTS MaxRows = 3 MaxVal = 1 MaxTime = 5 D = 4 ByPosition = TRUE
INVARIANT ShowsAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
