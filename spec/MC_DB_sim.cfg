SPECIFICATION SeqSpec
CONSTANTS
  DBs = {0, 1, 2}
  Good = {0, 1, 2}
  Bad = {3}
  Missing = {4}
  Texts = {0, 1}
  Solos = {0, 1}
  Threads = {}
  Queries = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxLen = 3
  MaxOps = 0
  Emitting = FALSE
  Sim = TRUE
  Depth = 40
CONSTRAINT Stop
CHECK_DEADLOCK FALSE
