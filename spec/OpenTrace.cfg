SPECIFICATION TSpec
CONSTANTS
  W64 = 8
  W32 = 4
  Tol = 10
  Late = 2500
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
