SPECIFICATION Spec
CONSTANTS NEL = 2 AMT = 2 MAXR = 2 MAXP = 2
INVARIANTS Complete Sound Honest FirstAttemptDecides
CHECK_DEADLOCK FALSE
