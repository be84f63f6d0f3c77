SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NPoints = 2
  NEntries = 2
  MaxAttempts = 0
  Spills = TRUE
  Locking = TRUE
  FlushAtEnd = TRUE
  HeaderFirst = TRUE
  Hist = FALSE
INVARIANTS Contiguous ProgramOrder HeaderIsFirst Recovered
CHECK_DEADLOCK FALSE
