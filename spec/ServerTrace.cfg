SPECIFICATION TraceSpec
CONSTANTS Conns = {1, 2, 3, 4, 5, 6, 7, 8}
  Limit = 8
INVARIANTS TypeOK Bound NoPhantom
CHECK_DEADLOCK FALSE
