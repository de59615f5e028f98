CONSTANTS
 Swallow = TRUE
 Greedy = FALSE
SPECIFICATION Spec
INVARIANT Safe
