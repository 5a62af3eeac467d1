SPECIFICATION Spec
CONSTANTS NT = 2 NO = 1 NM = 1 NW = 1 MaxLog = 2
INVARIANTS Matches FoundIfStored Latest AnyWorkflow OrderFree
PROPERTIES Apart
CHECK_DEADLOCK FALSE
