SPECIFICATION Spec
CONSTANT Shapes <- Graphs3t
INVARIANTS Ends Right
PROPERTY Finishes
CHECK_DEADLOCK FALSE
