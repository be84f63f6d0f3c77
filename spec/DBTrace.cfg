SPECIFICATION TSpec
CONSTANTS
  W64 = 8
  W32 = 4
VIEW TView
CONSTRAINT Reach
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
