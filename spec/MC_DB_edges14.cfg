SPECIFICATION SeqSpec
CONSTANTS
  DBs = {0, 1}
  Good = {0, 1, 2}
  Bad = {3}
  Missing = {4}
  Texts = {}
  Solos = {}
  Threads = {}
  Queries = {}
  MaxLen = 2
  MaxOps = 0
  Emitting = TRUE
  Sim = FALSE
  Depth = 0
INVARIANTS OnlyGood
CHECK_DEADLOCK FALSE
