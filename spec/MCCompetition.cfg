SPECIFICATION Spec
CONSTANTS NF = 3 NR = 2 MaxChunk = 2
INVARIANTS Alone Once OnlyTargets Complete Itself Reported
PROPERTY Ends
CHECK_DEADLOCK FALSE
