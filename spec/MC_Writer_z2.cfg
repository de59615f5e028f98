SPECIFICATION Spec
CONSTANTS Adds = 2 Emit = FALSE Menu <- Small Rot = "full" Align = "need" Announce = "real" Room = "down"
INVARIANT Right
CHECK_DEADLOCK FALSE
