SPECIFICATION Spec
CONSTANTS
 MaxFlows = 1
 MaxMus = 1
 Shared = FALSE
INVARIANTS NeverStuck NeedsExist Confluent OwnConditions AllUsed
CHECK_DEADLOCK FALSE
