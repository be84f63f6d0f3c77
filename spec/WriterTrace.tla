---------------------------- MODULE WriterTrace ----------------------------
(* What a run of the instrumentation run-time left on disk, judged: Format    *)
(* decodes it, and it must hold exactly the points the threads recorded, in   *)
(* an order that keeps each thread's program order (Writer's ProgramOrder,    *)
(* Contiguous, HeaderIsFirst and Recovered, on real bytes).                   *)
EXTENDS Format, Integers, Json, IOUtils, TLC, TLCExt

Log   == ndJsonDeserialize(IOEnv.VLOG)
Progs == ndJsonDeserialize(IOEnv.VFILES)
VARIABLE l

(* A program: names, types [name, fmt, size], threads: sequences of points
   [stmt, es] whose entries are [k |-> "v", n, t, b (bytes)], [k |-> "b", a, s] *)
EncEntry(x, types) ==
  IF x.k = "b" THEN <<TBuf>> \o x.a \o x.s
  ELSE LET ty == types[x.t + 1] IN
       <<TVar>> \o NatW(x.n, W32) \o NatW(x.t, W32)
         \o (IF ty.fmt = FBlob /\ ty.size = 0 THEN NatW(Len(x.b), W32) ELSE <<>>) \o x.b
EncRec(p, types) ==
  EncStmt(p.stmt) \o FlattenS([i \in 1..Len(p.es) |-> EncEntry(p.es[i], types)]) \o <<TEnd>>
HeaderBytes(g) == EncNames(g.names) \o EncTypes(g.types)

\* the thread and number of the point with this statement (they are all different)
Find(g, w) == {<<t, i>> \in UNION {{t} \X (1..Len(g.threads[t])) : t \in 1..Len(g.threads)} :
                  g.threads[t][i].stmt = w}
Judge(c) ==
  LET g == Progs[c.p + 1]
      d == TLCEval(Decode(c.out, 0))
      n == Len(d.tr.points)
      who == TLCEval([i \in 1..n |-> Find(g, d.tr.points[i].stmt)])
      id(i) == CHOOSE x \in who[i] : TRUE
      of(t) == SelectSeq([i \in 1..n |-> id(i)], LAMBDA x : x[1] = t)
      x == TLCEval(Decode(HeaderBytes(g) \o FlattenS([i \in 1..n |-> EncRec(g.threads[id(i)[1]][id(i)[2]], g.types)]), 0))
      nothing == \A t \in 1..Len(c.finished) : c.finished[t] = 0
  IN  IF ~d.ok THEN c.died /\ nothing
      ELSE /\ \A i \in 1..n : who[i] # {}
           /\ \A t \in 1..Len(g.threads) :
                LET o == of(t) IN
                /\ \A i \in 1..Len(o) : o[i][2] = i
                /\ Len(o) >= c.finished[t] /\ Len(o) <= c.ending[t]
                /\ ~c.died => Len(o) = Len(g.threads[t])
           /\ d = x

\* c.removed: the handshake file, if the program was started with one, is gone
Good(c) == c.ev = "WRUN" /\ c.removed /\ Judge(c)
TInit == l = 1
TNext == /\ l <= Len(Log)
         /\ IF Good(Log[l]) THEN TRUE ELSE PrintT(<<"BAD", l>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
