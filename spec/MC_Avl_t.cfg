SPECIFICATION Spec
CONSTANTS N = 12 Emit = TRUE Rot = "full" Align = "need" Announce = "real" Room = "up"
VIEW View
INVARIANTS IsAvl NoneLost Shallow
CHECK_DEADLOCK FALSE
