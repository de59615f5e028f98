SPECIFICATION Spec
CONSTANT Guard = FALSE
INVARIANTS Contained
CHECK_DEADLOCK FALSE
