SPECIFICATION Spec
CONSTANTS
  Traces = {1, 2, 3}
  Results = {1, 2}
  Cells = {1, 2}
  Files = {0, 1, 2}
  Counted = TRUE
  GivesBack = TRUE
  Copied = FALSE
  Emitting = FALSE
INVARIANTS Owned
CHECK_DEADLOCK FALSE
