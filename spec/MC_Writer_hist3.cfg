SPECIFICATION Spec
CONSTANTS
  NThreads = 3
  NPoints = 2
  NEntries = 1
  MaxAttempts = 5
  Spills = FALSE
  Locking = TRUE
  FlushAtEnd = TRUE
  HeaderFirst = TRUE
  Hist = TRUE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
