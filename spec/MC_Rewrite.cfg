SPECIFICATION Spec
CONSTANTS Max = 3 Order = "late" Guards = {"old", "taken"}
INVARIANTS NeverLost Result
PROPERTIES Strangers Ends
CHECK_DEADLOCK FALSE
