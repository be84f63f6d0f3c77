SPECIFICATION Spec
CONSTANTS
  Traces = {1, 2, 3}
  Results = {1, 2}
  Cells = {1, 2}
  Files = {0, 1, 2}
  Counted = FALSE
  GivesBack = TRUE
  Copied = TRUE
  Emitting = FALSE
INVARIANTS Valid
CHECK_DEADLOCK FALSE
