SPECIFICATION Spec
CONSTANT ES <- Large
INVARIANTS Sound Reversible MonotoneN Restricting ExclusiveIsStronger EnergyFree EndsCovered KinksAreReactions Optimal Symmetric
CHECK_DEADLOCK FALSE
