SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Docs = {3} Ops = {11, 12} MaxLen = 5 SaveCopies = TRUE LoadCopies = TRUE
INVARIANTS Faithful DocumentsKeep SavedAndLoaded
CHECK_DEADLOCK FALSE
