SPECIFICATION Spec
CONSTANTS Comps <- CompsB MaxE = 3 MaxN = 2 Depth = 12 Restore = TRUE
INVARIANTS HistoryFree NonEmpty EveryCornerBelongsToAPhase RefsStable StableIsTight Redundant Lowered
CHECK_DEADLOCK FALSE
