SPECIFICATION Spec
CONSTANTS
  Dbs = {a, b}
  Clients = {c1, c2}
  MaxOps = 3
  MaxFaults = 1
  MaxLives = 1
  Bug = "none"
SYMMETRY Sym
INVARIANTS TypeOk Answers CacheIsRight MemIsRight NothingLost NothingBack Stopped
CHECK_DEADLOCK FALSE
