SPECIFICATION Spec
CONSTANTS MAXREG = 4 MAXRX = 3
INVARIANTS FilterExists FilterIdempotent FilterSize DupIsEquivalence DupNotReverse QueryAll QueryNone QueryProduct LastCondition EnergiesDefined
PROPERTIES Immutable
CHECK_DEADLOCK FALSE
VIEW View
