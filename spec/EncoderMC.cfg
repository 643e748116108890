SPECIFICATION Spec
CONSTANTS
 NA = 2
 NB = 1
 LATE = FALSE
INVARIANTS
 Complete
 Typed
PROPERTY Closed
CHECK_DEADLOCK FALSE
