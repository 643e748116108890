SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
