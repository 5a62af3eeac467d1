SPECIFICATION Spec
CONSTANT DEPTH = 3
INVARIANTS StillConserved OneScale SignTracked EnergyScales PerAtomInvariant FractionsSum ReverseInvolution
CHECK_DEADLOCK FALSE
VIEW View
