SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Conserved Limit CompleteAtEnd NeverStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
VIEW View
