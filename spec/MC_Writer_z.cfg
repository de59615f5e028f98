SPECIFICATION Spec
CONSTANTS Adds = 3 Emit = FALSE Menu <- Small Rot = "full" Align = "need" Announce = "sum" Room = "up"
INVARIANT Right
CHECK_DEADLOCK FALSE
