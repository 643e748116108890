SPECIFICATION Spec
INVARIANT Total
INVARIANT FirstOffender
INVARIANT Complete
CHECK_DEADLOCK FALSE
