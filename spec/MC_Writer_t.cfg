SPECIFICATION Spec
CONSTANTS Adds = 4 Emit = FALSE Menu <- Large Rot = "full" Align = "need" Announce = "real" Room = "up"
INVARIANT Right
CHECK_DEADLOCK FALSE
