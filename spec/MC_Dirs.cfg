SPECIFICATION Spec
CONSTANT Shapes <- Graphs3
INVARIANTS Ends Right
PROPERTY Finishes
CHECK_DEADLOCK FALSE
