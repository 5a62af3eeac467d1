SPECIFICATION Spec
CONSTANTS Comps <- CompsT MaxE = 5 MaxN = 2 Depth = 12 Restore = TRUE
INVARIANTS HistoryFree NonEmpty EveryCornerBelongsToAPhase RefsStable StableIsTight Redundant Lowered
CHECK_DEADLOCK FALSE
