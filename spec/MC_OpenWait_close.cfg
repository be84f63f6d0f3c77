SPECIFICATION Spec
CONSTANTS
  Sec = 2
  Tol = 0
  Late = 0
  Ts = {0, 1, 2}
  MaxNow = 7
  Full = 3
  MaxSignals = 2
  Restart = TRUE
  Reblock = TRUE
  CloseOnTimeout = FALSE
INVARIANTS NotTooEarly InTime SoonAfter NoLimit Whole Immediate Closed JudgeSound JudgeTight
CHECK_DEADLOCK FALSE
