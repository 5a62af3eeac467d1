SPECIFICATION Spec
CONSTANTS NE = 3 ND = 3 MaxGroup = 3
INVARIANTS Once Sound Complete Same SystemsAreSearches
CHECK_DEADLOCK FALSE
