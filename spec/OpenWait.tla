------------------------------ MODULE OpenWait ------------------------------
(***************************************************************************)
(* Opening a trace and waiting for its first data: a timed model.           *)
(*                                                                           *)
(* One reader calls the library once, on a file of some kind, with a timeout *)
(* of T seconds (0: none).  For a pipe, a writer may at any time open it,    *)
(* write pieces of the trace and close it; signals may interrupt the reader  *)
(* at any time.  Time advances only when the reader has nothing to do, so    *)
(* the model reacts at once; the judgement Allowed, which is also applied to *)
(* recorded runs of the real code, adds the tolerances Tol and Late.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sec,      \* time units per second
          Tol,      \* a deadline may appear to be this much early (clock resolution)
          Late      \* a reaction may be this much late (scheduling)

-----------------------------------------------------------------------------
(* The judgement.  A call is described by
     kind   "missing", "dir", "file", "fifo"
     T      timeout in seconds
     t0, t1 times just before the call and just after its return
     ok     whether it succeeded
     w      the writer's acts in order, each between the times a and b:
            [op |-> "open" | "data" | "close", a, b]
     good   whether the bytes delivered are a trace the reader must accept
     decided whether the bytes delivered settle that, whatever follows them
     fd0,fd1 open descriptors before the call and after it *)
Acts(c, op) == {i \in 1..Len(c.w) : c.w[i].op = op}
\* what ends the wait: data, or the end of the pipe after a writer opened it
Ready(c) == Acts(c, "data") \cup Acts(c, "close")
FirstReady(c) == CHOOSE i \in Ready(c) : \A j \in Ready(c) : i <= j

TimedOut(c) ==
  /\ c.T > 0 /\ ~c.ok
  /\ c.t1 - c.t0 >= c.T * Sec - Tol
  /\ c.t1 - c.t0 <= c.T * Sec + Late
  /\ Ready(c) # {} => c.w[FirstReady(c)].b >= c.t0 + c.T * Sec - Tol
ReadAll(c) ==
  /\ Ready(c) # {}
  /\ LET r == c.w[FirstReady(c)]
     IN  /\ c.T > 0 => r.a <= c.t0 + c.T * Sec + Late
         /\ c.t1 >= r.a - Tol
  /\ c.ok = c.good
  /\ c.decided \/ \E i \in Acts(c, "close") : c.w[i].a <= c.t1
  /\ c.t1 <= c.w[Len(c.w)].b + Late
AtOnce(c) == c.t1 - c.t0 <= Late
Allowed(c) ==
  /\ c.fd1 = c.fd0
  /\ \/ c.kind \in {"missing", "dir"} /\ AtOnce(c) /\ ~c.ok
     \/ c.kind = "file" /\ AtOnce(c) /\ c.ok = c.good
     \/ c.kind = "fifo" /\ (TimedOut(c) \/ ReadAll(c))

-----------------------------------------------------------------------------
(* The model *)
CONSTANTS Ts, MaxNow, Full, MaxSignals,
          Restart,        \* design: an interrupted wait goes on
          Reblock,        \* design: the descriptor is blocking once data arrived
          CloseOnTimeout  \* design: the descriptor is closed when the wait fails

VARIABLES now, kind, T, phase, t0, t1, ok, fds, w, wst, sent, seen, sig
vars == <<now, kind, T, phase, t0, t1, ok, fds, w, wst, sent, seen, sig>>

Init ==
  /\ now = 0 /\ kind \in {"missing", "dir", "file", "fifo"} /\ T \in Ts
  /\ phase = "out" /\ t0 = 0 /\ t1 = 0 /\ ok = FALSE /\ fds = 0
  /\ w = <<>> /\ wst = "none" /\ sig = 0 /\ seen = 0
  /\ sent \in IF kind = "file" THEN 0..Full ELSE {0}

End(r) == phase' = "done" /\ t1' = now /\ ok' = r
Good == sent = Full

Call ==
  /\ phase = "out"
  /\ t0' = now
  /\ CASE kind = "missing" -> End(FALSE) /\ UNCHANGED fds
       [] kind = "dir" -> End(FALSE) /\ UNCHANGED fds
       [] kind = "file" -> End(Good) /\ UNCHANGED fds
       [] kind = "fifo" -> phase' = "wait" /\ fds' = 1 /\ UNCHANGED <<t1, ok>>
  /\ UNCHANGED <<now, kind, T, w, wst, sent, seen, sig>>

HasReady == \E i \in 1..Len(w) : w[i].op \in {"data", "close"}
WaitEnds ==
  /\ phase = "wait" /\ HasReady /\ phase' = "read"
  /\ UNCHANGED <<now, kind, T, t0, t1, ok, fds, w, wst, sent, seen, sig>>
Timeout ==
  /\ phase = "wait" /\ T > 0 /\ now >= t0 + T * Sec
  /\ End(FALSE) /\ fds' = IF CloseOnTimeout THEN 0 ELSE fds
  /\ UNCHANGED <<now, kind, T, t0, w, wst, sent, seen, sig>>
\* the reader takes what is there; at the end of the pipe it decides
Take ==
  /\ phase = "read" /\ seen < sent /\ seen' = sent
  /\ UNCHANGED <<now, kind, T, phase, t0, t1, ok, fds, w, wst, sent, sig>>
EndOfPipe ==
  /\ phase = "read" /\ seen = sent /\ (wst = "closed" \/ ~Reblock)
  /\ End(seen = Full) /\ fds' = 0
  /\ UNCHANGED <<now, kind, T, t0, w, wst, sent, seen, sig>>
Signal ==
  /\ phase \in {"wait", "read"} /\ sig < MaxSignals /\ sig' = sig + 1
  /\ IF phase = "wait" /\ ~Restart THEN End(FALSE) /\ fds' = 0
     ELSE UNCHANGED <<phase, t1, ok, fds>>
  /\ UNCHANGED <<now, kind, T, t0, w, wst, sent, seen>>

Write(op) == w' = Append(w, [op |-> op, a |-> now, b |-> now])
WOpen == /\ kind = "fifo" /\ phase \in {"wait"} /\ wst = "none" /\ wst' = "open"
         /\ Write("open")
         /\ UNCHANGED <<now, kind, T, phase, t0, t1, ok, fds, sent, seen, sig>>
WData == /\ wst = "open" /\ phase \in {"wait", "read"} /\ sent < Full /\ sent' = sent + 1
         /\ Write("data")
         /\ UNCHANGED <<now, kind, T, phase, t0, t1, ok, fds, wst, seen, sig>>
WClose == /\ wst = "open" /\ phase \in {"wait", "read"} /\ wst' = "closed"
          /\ Write("close")
          /\ UNCHANGED <<now, kind, T, phase, t0, t1, ok, fds, sent, seen, sig>>

ReaderStep == Call \/ WaitEnds \/ Timeout \/ Take \/ EndOfPipe
Tick ==
  /\ ~ENABLED ReaderStep /\ phase # "done" /\ now < MaxNow
  /\ now' = now + 1
  /\ UNCHANGED <<kind, T, phase, t0, t1, ok, fds, w, wst, sent, seen, sig>>
Next == ReaderStep \/ WOpen \/ WData \/ WClose \/ Signal \/ Tick
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What C16 promises, said directly of the model *)
Done == phase = "done"
DataAt == IF \E i \in 1..Len(w) : w[i].op = "data"
          THEN w[CHOOSE i \in 1..Len(w) : w[i].op = "data" /\ \A j \in 1..(i-1) : w[j].op # "data"].a
          ELSE MaxNow + 1
NotTooEarly == Done /\ ~ok /\ kind = "fifo" /\ wst # "closed" => T > 0 /\ t1 >= t0 + T * Sec
InTime      == Done /\ kind = "fifo" /\ DataAt < t0 + T * Sec /\ sent = Full /\ wst = "closed" => ok
SoonAfter   == phase = "wait" /\ T > 0 => now <= t0 + T * Sec
NoLimit     == Done /\ T = 0 /\ kind = "fifo" => wst = "closed"
Whole       == Done /\ ok => seen = Full \/ kind = "file"
Immediate   == kind # "fifo" /\ Done => t1 = t0
Closed      == Done => fds = 0
\* the judgement accepts every behaviour of the model ...
Rec == [kind |-> kind, T |-> T, t0 |-> t0, t1 |-> t1, ok |-> ok, w |-> w,
        good |-> sent = Full, decided |-> FALSE, fd0 |-> 0, fd1 |-> fds]
JudgeSound == Done => Allowed(Rec)
\* ... and nothing beside it: another outcome, another moment, a descriptor left open
Tie == kind = "fifo" /\ T > 0 /\ HasReady /\ w[FirstReady(Rec)].a = t0 + T * Sec
JudgeTight == Done =>
  /\ ~Allowed([Rec EXCEPT !.fd1 = @ + 1])
  /\ Tie \/ ~Allowed([Rec EXCEPT !.ok = ~@])
  /\ Late = 0 => ~Allowed([Rec EXCEPT !.t1 = @ + 1])
  /\ Tol = 0 /\ (kind = "fifo" /\ ~HasReady) => ~Allowed([Rec EXCEPT !.t1 = @ - 1])
=============================================================================
