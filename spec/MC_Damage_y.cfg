CONSTANTS
 Swallow = FALSE
 Greedy = TRUE
SPECIFICATION Spec
INVARIANT Safe
