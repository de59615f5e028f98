SPECIFICATION Spec
CONSTANTS Adds = 2 Emit = FALSE Menu <- Small Rot = "full" Align = "none" Announce = "real" Room = "up"
INVARIANT Right
CHECK_DEADLOCK FALSE
