SPECIFICATION Spec
CONSTANTS RS <- Large
 PH = {1, 2, 3, 4}
 MaxSteps = 6
INVARIANTS HistoryFree NoDangling PathsExecutable PathsReach
VIEW View
CHECK_DEADLOCK FALSE
