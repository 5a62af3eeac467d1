SPECIFICATION Spec
CONSTANT ES <- Small
INVARIANTS Sound Reversible MonotoneN Restricting ExclusiveIsStronger EnergyFree EndsCovered KinksAreReactions Optimal Symmetric
CHECK_DEADLOCK FALSE
