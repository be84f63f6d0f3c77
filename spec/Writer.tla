------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* The run-time code of an instrumented program.  Threads record points with *)
(* a call that begins a point, calls that add entries and a call that ends   *)
(* it.  All write through one buffered stream; what has reached the disk     *)
(* survives when the program dies.  The buffer may spill at any time.        *)
(*                                                                           *)
(* The design (Locking, FlushAtEnd, HeaderFirst TRUE) is what C17 needs;     *)
(* each of the three switched off violates one of the invariants.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS NThreads, NPoints, NEntries, MaxAttempts, Spills,
          Locking, FlushAtEnd, HeaderFirst,
          Hist     \* TRUE: keep the schedule

Threads == 1..NThreads
None == 0
VARIABLES lock, pt, st, disk, buf, fin, dead, sched, att
vars == <<lock, pt, st, disk, buf, fin, dead, sched, att>>
\* pt[t]: number of points begun; st[t]: 0 outside, k+1 after k entries
\* tokens: <<0,0,0>> header, <<t, p, k>> entry k of point p of thread t (0 = begin, NEntries+1 = end)
Header == <<0, 0, 0>>

Init == /\ lock = None /\ pt = [t \in Threads |-> 0] /\ st = [t \in Threads |-> 0]
        /\ disk = <<>> /\ buf = IF HeaderFirst THEN <<Header>> ELSE <<>>
        /\ fin = [t \in Threads |-> 0] /\ dead = FALSE /\ sched = <<>> /\ att = 0

Log(t) == sched' = IF Hist THEN Append(sched, t) ELSE sched
Put(x) == buf' = Append(buf, x)

\* the first point of a program without header-first writes the header itself
LateHeader == IF ~HeaderFirst /\ \A u \in Threads : pt[u] = 0 THEN <<Header>> ELSE <<>>
Begin(t) ==
  /\ ~dead /\ st[t] = 0 /\ pt[t] < NPoints
  /\ Locking => lock = None
  /\ lock' = t /\ pt' = [pt EXCEPT ![t] = @ + 1] /\ st' = [st EXCEPT ![t] = 1]
  /\ buf' = Append(buf, <<t, pt[t] + 1, 0>>) \o LateHeader
  /\ Log(t) /\ UNCHANGED <<disk, fin, dead, att>>
\* a thread that has to wait for the lock
Attempt(t) ==
  /\ Hist /\ ~dead /\ st[t] = 0 /\ pt[t] < NPoints /\ Locking /\ lock # None
  /\ att < MaxAttempts /\ att' = att + 1
  /\ Log(t) /\ UNCHANGED <<lock, pt, st, disk, buf, fin, dead>>
Entry(t) ==
  /\ ~dead /\ st[t] \in 1..NEntries
  /\ Put(<<t, pt[t], st[t]>>) /\ st' = [st EXCEPT ![t] = @ + 1]
  /\ Log(t) /\ UNCHANGED <<lock, pt, disk, fin, dead, att>>
End(t) ==
  /\ ~dead /\ st[t] = NEntries + 1
  /\ LET b == Append(buf, <<t, pt[t], NEntries + 1>>)
     IN  IF FlushAtEnd THEN disk' = disk \o b /\ buf' = <<>> ELSE buf' = b /\ UNCHANGED disk
  /\ st' = [st EXCEPT ![t] = 0] /\ fin' = [fin EXCEPT ![t] = @ + 1] /\ lock' = None
  /\ Log(t) /\ UNCHANGED <<pt, dead, att>>
\* the stream's buffer is full: a part of it is written out
Spill ==
  /\ Spills /\ ~dead /\ buf # <<>>
  /\ \E k \in 1..Len(buf) : disk' = disk \o SubSeq(buf, 1, k) /\ buf' = SubSeq(buf, k + 1, Len(buf))
  /\ UNCHANGED <<lock, pt, st, fin, dead, sched, att>>
Quiet == \A t \in Threads : st[t] = 0
Die == /\ ~dead /\ Quiet /\ dead' = TRUE
       /\ UNCHANGED <<lock, pt, st, disk, buf, fin, sched, att>>
\* regular end of the program: the stream is flushed
Finish == /\ ~dead /\ \A t \in Threads : st[t] = 0 /\ pt[t] = NPoints
          /\ buf # <<>> /\ disk' = disk \o buf /\ buf' = <<>>
          /\ UNCHANGED <<lock, pt, st, fin, dead, sched, att>>

Complete == \A t \in Threads : st[t] = 0 /\ pt[t] = NPoints
Next == (\E t \in Threads : Begin(t) \/ Attempt(t) \/ Entry(t) \/ End(t)) \/ Spill
        \/ (~Hist /\ (Die \/ Finish))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Reading what was written: the header first, then whole points; the rest   *)
(* of an unfinished point is cut off.                                        *)
Whole(i, s) == \* is a whole point at position i of s?
  /\ i + NEntries + 1 <= Len(s) /\ s[i][1] # 0 /\ s[i][3] = 0
  /\ \A k \in 0..(NEntries + 1) : s[i + k] = <<s[i][1], s[i][2], k>>
RECURSIVE PointsFrom(_, _)
PointsFrom(i, s) == IF i <= Len(s) /\ Whole(i, s)
                    THEN <<<<s[i][1], s[i][2]>>>> \o PointsFrom(i + NEntries + 2, s) ELSE <<>>
HeaderAt1(s) == s # <<>> /\ s[1] = Header
Points(s) == IF HeaderAt1(s) THEN PointsFrom(2, s) ELSE <<>>
Used(s) == 1 + (NEntries + 2) * Len(Points(s))
Of(t, ps) == SelectSeq(ps, LAMBDA p : p[1] = t)

Out == disk \o buf
\* any number of threads, any interleaving: exactly the recorded points, contiguous
Contiguous == LET n == Len(Out) - (IF HeaderAt1(Out) THEN Used(Out) ELSE 0)
              IN  HeaderAt1(Out) /\ n = (IF Quiet THEN 0 ELSE
                    LET t == CHOOSE t \in Threads : st[t] # 0 IN st[t])
ProgramOrder == \A t \in Threads : Of(t, Points(Out)) = [i \in 1..fin[t] |-> <<t, i>>]
HeaderIsFirst == Out # <<>> => Out[1] = Header
\* dying between points loses none of the finished points and leaves nothing unreadable
Recovered == dead => /\ \A t \in Threads : Of(t, Points(disk)) = [i \in 1..fin[t] |-> <<t, i>>]
                     /\ (\E t \in Threads : fin[t] > 0) => Len(disk) = Used(disk)

\* schedules for replay
EmitHist == Hist /\ Complete => PrintT("HIST " \o ToJson(sched))
=============================================================================
