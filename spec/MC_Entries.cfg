SPECIFICATION Spec
CONSTANTS N = 3
 Orders <- Key3
 LT <- LT3
 RT <- RT3
 Emit = TRUE
 Bound = 8
INVARIANTS Ends Exact Sound Complete Honest
CHECK_DEADLOCK FALSE
