CONSTANTS
  FB = 3
  SB = 4
  Spare = 1
  WithFlag = TRUE
SPECIFICATION Spec
INVARIANTS Consistent Restricted
CHECK_DEADLOCK FALSE
