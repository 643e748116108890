SPECIFICATION Spec
CONSTANTS N = 3 K = 3 SHARED = TRUE
INVARIANT Isolated
CHECK_DEADLOCK FALSE
