SPECIFICATION Spec
CONSTANTS Guard = "meaning" MaxLen = 3
INVARIANTS SourceSafe OnlyOutput
CHECK_DEADLOCK FALSE
