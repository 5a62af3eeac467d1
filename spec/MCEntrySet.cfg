SPECIFICATION Spec
CONSTANTS NPH = 5 ELO <- Lo EHI = 0
INVARIANTS CacheFresh NonNegative SomeStable FilterExists FilterKeepsHull FilterMonotone GroundStates Local Stabilized
PROPERTY Monotone
CHECK_DEADLOCK FALSE
VIEW View
