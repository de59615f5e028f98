SPECIFICATION Spec
CONSTANTS Guard = "meaning" MaxLen = 2
INVARIANTS SourceSafe OnlyOutput
CHECK_DEADLOCK FALSE
