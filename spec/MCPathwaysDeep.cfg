SPECIFICATION Spec
CONSTANTS Pool <- PoolA
 Nets <- NetsA
 MaxCand = 4
 MaxCombo = 3
 Chunks = {2, 4}
 Batches = {1, 3}
 Split = 3
INVARIANTS Complete Sound Consumes RealizableIsOrdered
CHECK_DEADLOCK FALSE
