SPECIFICATION Spec
CONSTANTS NF = 3 NR = 3 MaxChunk = 3
INVARIANTS Alone Once OnlyTargets Complete Itself Reported
CHECK_DEADLOCK FALSE
