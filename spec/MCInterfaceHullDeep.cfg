SPECIFICATION Spec
CONSTANTS D = 5 MAXR = 4
  Ys <- YsDeep
INVARIANTS BelowAll AtVertices Convex OnlyDown ClearlyAgrees Enumeration NonPositive
CHECK_DEADLOCK FALSE
