SPECIFICATION Spec
CONSTANTS N = 4
 Orders <- Key4
 LT <- LT4
 RT <- RT4
 Emit = FALSE
 Bound = 8
INVARIANTS Ends Exact Sound Complete Honest
CHECK_DEADLOCK FALSE
