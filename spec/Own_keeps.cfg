SPECIFICATION Spec
CONSTANTS
  Traces = {1, 2, 3}
  Results = {1, 2}
  Cells = {1, 2}
  Files = {0, 1, 2}
  Counted = TRUE
  GivesBack = FALSE
  Copied = TRUE
  Emitting = FALSE
CONSTRAINT Small
INVARIANTS Nothing
CHECK_DEADLOCK FALSE
