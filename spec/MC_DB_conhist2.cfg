SPECIFICATION ConSpec
CONSTANTS
  DBs = {0, 1}
  Good = {0}
  Bad = {3}
  Missing = {}
  Texts = {}
  Solos = {}
  Threads = {0, 1}
  Queries = {}
  MaxLen = 9
  MaxOps = 2
  Emitting = FALSE
  Sim = TRUE
  Depth = 12
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
