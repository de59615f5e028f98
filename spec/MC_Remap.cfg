SPECIFICATION Spec
CONSTANTS Keep = "first" Seek = "nearest" MaxRules = 2 Order = "stack"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
