SPECIFICATION Spec
CONSTANTS Adds = 3 Emit = FALSE Menu <- Small Rot = "single" Align = "need" Announce = "real" Room = "up"
INVARIANT Right
CHECK_DEADLOCK FALSE
