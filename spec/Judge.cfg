INIT JInit
NEXT JNext
CHECK_DEADLOCK FALSE
