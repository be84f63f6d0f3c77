SPECIFICATION Spec
CONSTANTS
  Keys = {2, 5, 8, 11}
  Sizes = {1, 4}
  MaxH = 4
  Probes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
  Emitting = FALSE
INVARIANTS Ordered HeightOK LookupOK
CHECK_DEADLOCK FALSE
