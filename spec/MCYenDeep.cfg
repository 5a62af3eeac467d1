SPECIFICATION Spec
CONSTANTS N = 5
 Costs <- CostDefDeep
 K = 7
INVARIANTS Right Prefix
CHECK_DEADLOCK FALSE
