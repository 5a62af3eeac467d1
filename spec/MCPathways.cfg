SPECIFICATION Spec
CONSTANTS Pool <- PoolA
 Nets <- NetsA
 MaxCand = 3
 MaxCombo = 3
 Chunks = {1, 3}
 Batches = {1, 2}
 Split = 2
INVARIANTS Complete Sound Consumes RealizableIsOrdered
PROPERTY Ends
CHECK_DEADLOCK FALSE
