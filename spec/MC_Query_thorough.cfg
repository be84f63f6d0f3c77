SPECIFICATION Spec
CONSTANTS MaxPoints = 1
 MaxVars = 3
 Small = FALSE
INVARIANTS Agrees Meaning SoftKeeps Dups Choice Decided
CHECK_DEADLOCK FALSE
