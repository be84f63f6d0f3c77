----------------------------- MODULE OpenTrace -----------------------------
(* Recorded timed runs of the real code are judged by OpenWait!Allowed; what  *)
(* the delivered bytes mean is decided by Format. Times in milliseconds.      *)
EXTENDS Format, Integers, Json, IOUtils, TLC, TLCExt

CONSTANTS Tol, Late
OW == INSTANCE OpenWait WITH Sec <- 1000, Ts <- {}, MaxNow <- 0, Full <- 0, MaxSignals <- 0,
        Restart <- TRUE, Reblock <- TRUE, CloseOnTimeout <- TRUE,
        now <- 0, kind <- "", T <- 0, phase <- "", t0 <- 0, t1 <- 0, ok <- FALSE, fds <- 0,
        w <- <<>>, wst <- "", sent <- 0, seen <- 0, sig <- 0

Log   == ndJsonDeserialize(IOEnv.VLOG)
FileT == ndJsonDeserialize(IOEnv.VFILES)

VARIABLE l
\* the bytes the reader could see: all of a file, of a pipe what was delivered
Input(c) == LET b == FileT[c.f + 1].b
            IN  IF c.kind = "fifo" THEN SubSeq(b, 1, c.len) ELSE b
Outcome(c) == Decode(Input(c), c.max)
Judge(c) ==
  LET o == TLCEval(Outcome(c))
      r == [kind |-> c.kind, T |-> c.T, t0 |-> c.t0, t1 |-> c.t1, ok |-> c.ok, w |-> c.w,
            good |-> o.ok, decided |-> Decided(Input(c), c.max), fd0 |-> c.fd0, fd1 |-> c.fd1]
  IN  /\ OW!Allowed(r)
      /\ c.traces = IF c.ok THEN 1 ELSE 0
      /\ c.ok => c.stmts = [i \in 1..Len(o.tr.points) |-> o.tr.points[i].stmt]

Good(c) == c.ev = "OPEN" /\ Judge(c)
TInit == l = 1
TNext == /\ l <= Len(Log)
         /\ IF Good(Log[l]) THEN TRUE ELSE PrintT(<<"BAD", l>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
