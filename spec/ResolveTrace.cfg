SPECIFICATION Spec
INVARIANT Contained
CHECK_DEADLOCK FALSE
