SPECIFICATION Spec
CONSTANTS N = 3 K = 3 SHARED = FALSE
INVARIANT Isolated
PROPERTY NoInterference
CHECK_DEADLOCK FALSE
