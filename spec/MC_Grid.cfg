CONSTANTS Stride = 90
SPECIFICATION Spec
INVARIANT Exact Ends
PROPERTY Rises
CHECK_DEADLOCK FALSE
