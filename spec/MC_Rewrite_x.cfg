SPECIFICATION Spec
CONSTANTS Max = 3 Order = "early" Guards = {"old", "taken"}
INVARIANTS NeverLost Result
PROPERTIES Strangers 
CHECK_DEADLOCK FALSE
