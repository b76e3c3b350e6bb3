CONSTANTS Stride = 9000
SPECIFICATION Spec
INVARIANT Exact Ends
PROPERTY Rises
CHECK_DEADLOCK FALSE
