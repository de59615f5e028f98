CONSTANTS
 Swallow = FALSE
 Greedy = FALSE
SPECIFICATION Spec
INVARIANT Safe
PROPERTY Ends
