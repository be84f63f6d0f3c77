SPECIFICATION Spec
CONSTANTS
  NThreads = 2
  NPoints = 2
  NEntries = 2
  MaxAttempts = 3
  Spills = FALSE
  Locking = TRUE
  FlushAtEnd = TRUE
  HeaderFirst = TRUE
  Hist = TRUE
INVARIANT EmitHist
CHECK_DEADLOCK FALSE
