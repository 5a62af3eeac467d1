SPECIFICATION Spec
CONSTANTS D = 5 MAXR = 3
  Ys <- YsSmall
INVARIANTS BelowAll AtVertices Convex OnlyDown ClearlyAgrees Enumeration NonPositive
CHECK_DEADLOCK FALSE
