SPECIFICATION Spec
CONSTANTS N = 4
 Costs <- CostDef
 K = 4
INVARIANTS Right Prefix
CHECK_DEADLOCK FALSE
