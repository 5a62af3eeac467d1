SPECIFICATION Spec
CONSTANTS Temps = {2000, 3000, 3005, 3500, 4000, 6000, 7000} MAXLEN = 4
INVARIANTS AppliedOnce InRange PathIndependent BackAgain InterpBetween
CHECK_DEADLOCK FALSE
