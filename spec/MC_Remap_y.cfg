SPECIFICATION Spec
CONSTANTS Keep = "first" Seek = "farthest" MaxRules = 2 Order = "stack"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
