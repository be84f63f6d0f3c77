SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  NPoints = 2
  NEntries = 1
  MaxAttempts = 0
  Spills = TRUE
  Locking = TRUE
  FlushAtEnd = FALSE
  HeaderFirst = TRUE
  Hist = FALSE
INVARIANTS Contiguous ProgramOrder HeaderIsFirst Recovered
CHECK_DEADLOCK FALSE
