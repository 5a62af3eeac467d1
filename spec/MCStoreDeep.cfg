SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Docs = {3, 4} Ops = {11, 12} MaxLen = 7 SaveCopies = TRUE LoadCopies = TRUE
INVARIANTS Faithful DocumentsKeep SavedAndLoaded
CHECK_DEADLOCK FALSE
