SPECIFICATION Spec
CONSTANTS RS <- Small
 PH = {1, 2, 3, 4}
 MaxSteps = 3
INVARIANTS HistoryFree NoDangling PathsExecutable PathsReach
VIEW View
CHECK_DEADLOCK FALSE
