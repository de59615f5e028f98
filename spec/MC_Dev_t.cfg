SPECIFICATION Spec
CONSTANTS Depth = 5 Caps = {1, 2, 4} LenOf = "flush" Seek = "flush"
INVARIANTS LengthRight ContentRight
CHECK_DEADLOCK FALSE
