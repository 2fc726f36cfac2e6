SPECIFICATION Spec
CONSTANT MaxRows = 2
INVARIANT VerdictOK
PROPERTY Ends
CHECK_DEADLOCK FALSE
