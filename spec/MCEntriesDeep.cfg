SPECIFICATION Spec
CONSTANTS Temps = {200, 300, 350, 400, 600, 700} MAXLEN = 6
INVARIANTS AppliedOnce InRange PathIndependent BackAgain InterpBetween
CHECK_DEADLOCK FALSE
