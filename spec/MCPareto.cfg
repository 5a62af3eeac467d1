SPECIFICATION Spec
CONSTANTS MaxRows = 4 Width = 2 MaxVal = 2
INVARIANTS IsAFront SoundSoFar OneOfEquals
PROPERTY Ends
CHECK_DEADLOCK FALSE
