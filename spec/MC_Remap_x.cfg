SPECIFICATION Spec
CONSTANTS Keep = "last" Seek = "nearest" MaxRules = 1 Order = "stack"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
