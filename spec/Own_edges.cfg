SPECIFICATION Spec
CONSTANTS
  Traces = {1, 2}
  Results = {1, 2}
  Cells = {1, 2}
  Files = {0, 1, 2}
  Counted = TRUE
  GivesBack = TRUE
  Copied = TRUE
  Emitting = TRUE

CHECK_DEADLOCK FALSE
