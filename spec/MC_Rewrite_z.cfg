SPECIFICATION Spec
CONSTANTS Max = 3 Order = "late" Guards = {"old"}
INVARIANTS NeverLost Result
PROPERTIES Strangers 
CHECK_DEADLOCK FALSE
