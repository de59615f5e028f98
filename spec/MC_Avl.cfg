SPECIFICATION Spec
CONSTANTS N = 9 Emit = TRUE Rot = "full" Align = "need" Announce = "real" Room = "up"
VIEW View
INVARIANTS IsAvl NoneLost Shallow
CHECK_DEADLOCK FALSE
