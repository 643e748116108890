SPECIFICATION Spec
CONSTANTS Conns = {1, 2, 3}
  Limit = 2
CHECK_DEADLOCK FALSE
