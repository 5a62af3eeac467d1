SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 12
INVARIANTS NoneTwice OnlyFinished Partition LogConforms
PROPERTY AllDelivered
CHECK_DEADLOCK FALSE
