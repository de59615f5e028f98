SPECIFICATION Spec
CONSTANT Guard = TRUE
INVARIANTS Contained Right Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
