SPECIFICATION ConSpec
CONSTANTS
  DBs = {0}
  Good = {0}
  Bad = {3}
  Missing = {}
  Texts = {}
  Solos = {}
  Threads = {1, 2, 3}
  Queries = {}
  MaxLen = 9
  MaxOps = 1
  Emitting = FALSE
  Sim = FALSE
  Depth = 0
INVARIANTS OnlyGood Once Complete RealTime
PROPERTIES AppendOnly OneAtATime AllReturn
CHECK_DEADLOCK FALSE
