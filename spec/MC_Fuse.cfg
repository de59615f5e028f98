INIT Init
NEXT Next
CONSTANT Depth = 3
INVARIANT AnswersOk KnownIsCache Injective
PROPERTY Stable
CHECK_DEADLOCK FALSE
