CONSTANTS
  FB = 2
  SB = 3
  Spare = 1
  WithFlag = FALSE
SPECIFICATION Spec
INVARIANTS Consistent Restricted
CHECK_DEADLOCK FALSE
