SPECIFICATION Spec
CONSTANT N = 7
INVARIANTS Conserved Limit CompleteAtEnd NeverStuck
PROPERTY Terminates
CHECK_DEADLOCK FALSE
VIEW View
