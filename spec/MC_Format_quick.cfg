SPECIFICATION Spec
CONSTANTS
  W64 = 1
  W32 = 1
  Alphabet = {0, 1, 2, 3, 4, 5}
  MaxLen = 7
  MaxPoints = 1
  Prefix <- NoPrefix
INVARIANTS Settles ChunkIndependent CutsSound WholePoints Limit RoundTrip OnlyPointers
PROPERTIES Termination Monotone
CHECK_DEADLOCK FALSE
