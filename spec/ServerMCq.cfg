SPECIFICATION MCSpec
CONSTANTS Conns = {1, 2}
  Limit = 1
  MaxReq = 1
INVARIANTS TypeOK SlotBound NoPhantom
PROPERTIES Served SlotsReturn InOrder
CHECK_DEADLOCK FALSE
