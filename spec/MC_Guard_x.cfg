SPECIFICATION Spec
CONSTANTS Guard = "lexical" MaxLen = 2
INVARIANTS SourceSafe OnlyOutput
CHECK_DEADLOCK FALSE
