SPECIFICATION Spec
CONSTANTS MaxRows = 4 MaxVal = 2 MaxTime = 7 D = 5 ByPosition = TRUE
INVARIANT ShowsAll
PROPERTY Ends
CHECK_DEADLOCK FALSE
