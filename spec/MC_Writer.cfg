SPECIFICATION Spec
CONSTANTS Adds = 3 Emit = TRUE Menu <- Small Rot = "full" Align = "need" Announce = "real" Room = "up"
INVARIANT Right
CHECK_DEADLOCK FALSE
