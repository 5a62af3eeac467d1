SPECIFICATION Spec
CONSTANTS MaxObjs = 4 MaxOps = 4
INVARIANTS OneValuePerKey Pure CostsKnown MissingIsReported More
PROPERTY Isolated
CHECK_DEADLOCK FALSE
