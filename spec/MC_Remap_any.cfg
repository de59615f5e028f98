SPECIFICATION Spec
CONSTANTS Keep = "first" Seek = "nearest" MaxRules = 1 Order = "any"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
