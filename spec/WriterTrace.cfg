SPECIFICATION TSpec
CONSTANTS
  W64 = 8
  W32 = 4
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
