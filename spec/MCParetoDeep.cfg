SPECIFICATION Spec
CONSTANTS MaxRows = 4 Width = 3 MaxVal = 2
INVARIANTS IsAFront SoundSoFar OneOfEquals
CHECK_DEADLOCK FALSE
