SPECIFICATION Spec
CONSTANTS
 NA = 2
 NB = 1
 LATE = TRUE
INVARIANT Complete
CHECK_DEADLOCK FALSE
