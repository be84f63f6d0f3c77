SPECIFICATION ConSpec
CONSTANTS
  DBs = {0}
  Good = {0}
  Bad = {3}
  Missing = {}
  Texts = {}
  Solos = {}
  Threads = {0, 1, 2}
  Queries = {}
  MaxLen = 9
  MaxOps = 1
  Emitting = FALSE
  Sim = TRUE
  Depth = 9
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
