SPECIFICATION Spec
CONSTANTS Keep = "first" Seek = "nearest" MaxRules = 2 Order = "any"
INVARIANT AsDocumented
CHECK_DEADLOCK FALSE
