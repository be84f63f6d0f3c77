SPECIFICATION Spec
CONSTANTS MaxPoints = 2
 MaxVars = 2
 Small = TRUE
INVARIANTS Agrees Meaning SoftKeeps Dups Choice Decided
CHECK_DEADLOCK FALSE
