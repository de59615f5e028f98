SPECIFICATION Spec
CONSTANTS Keep = "first" Seek = "nearest" MaxRules = 3 Order = "stack"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
