SPECIFICATION Spec
CONSTANTS Depth = 2 Caps = {1, 2, 4} LenOf = "file" Seek = "flush"
INVARIANTS LengthRight ContentRight
CHECK_DEADLOCK FALSE
