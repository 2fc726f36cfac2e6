SPECIFICATION Spec
CONSTANTS MaxLines = 2 MaxIns = 2 MaxOuts = 1
INVARIANTS Durable NeverSilent Prefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
