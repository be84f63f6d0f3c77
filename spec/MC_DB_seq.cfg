SPECIFICATION SeqSpec
CONSTANTS
  DBs = {0, 1}
  Good = {0, 1}
  Bad = {3}
  Missing = {4}
  Texts = {0}
  Solos = {0}
  Threads = {}
  Queries = {}
  MaxLen = 2
  MaxOps = 0
  Emitting = FALSE
  Sim = FALSE
  Depth = 0
INVARIANTS OnlyGood
PROPERTIES AppendOnly OneAtATime TextsStay
CHECK_DEADLOCK FALSE
