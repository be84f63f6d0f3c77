------------------------------- MODULE DBTrace -------------------------------
(***************************************************************************)
(* Trace validation: a recorded run of the implementation (one event per API *)
(* call with its arguments and everything it returned) is accepted only if   *)
(* it is a behaviour of TraceDB whose observations agree with Format (what   *)
(* reading a file means), MemMap and Query.                                  *)
(***************************************************************************)
EXTENDS TraceDB, Format, Query, Ids, Json, IOUtils

Log   == ndJsonDeserialize(IOEnv.VLOG)
FileT == ndJsonDeserialize(IOEnv.VFILES)       \* one record [b |-> bytes] per file
NFiles == Len(FileT)
Bytes(f) == FileT[f + 1].b
\* Full decoding of each registered file, calculated once
Decoded == TLCEval([f \in 1..NFiles |-> TLCEval(Decode(Bytes(f - 1), 0))])

VARIABLES l,        \* next event
          memo,     \* answers seen: <<trace id, query, seed>> -> results
          hits,     \* <<trace id, query>> -> points a seeded query has chosen
          written,  \* files written by the implementation: id -> bytes
          maps,     \* memory maps driven directly
          held,     \* results in the caller's hands: handle -> [src, alive, tr, res]
          usage     \* memory in use when everything had been released
tvars == <<dbvars, l, memo, hits, written, maps, held, usage>>

e == Log[l]
IsEvent(name) == l <= Len(Log) /\ Log[l].ev = name /\ l' = l + 1
Has(r, f) == f \in DOMAIN r

FileBytes(f) == IF f \in DOMAIN written THEN written[f] ELSE Bytes(f)
Outcome(f, cut, max) ==
  IF f \notin DOMAIN written /\ cut < 0 /\ max = 0 THEN Decoded[f + 1]
  ELSE LET b == FileBytes(f)
       IN  Decode(IF cut < 0 \/ cut >= Len(b) THEN b ELSE SubSeq(b, 1, cut), max)

-----------------------------------------------------------------------------
(* What the interface shows of a trace *)
VarSeen(v, o, types) ==
  /\ o.n = v.n /\ o.tn = types[v.t + 1].name /\ o.f = v.f /\ o.size = v.size
  /\ o.val = v.val /\ o.has = v.has /\ (v.has => o.buf = v.buf)
PointSeen(p, o, types) ==
  /\ o.stmt = p.stmt /\ o.aux = p.aux
  /\ Len(o.vars) = Len(p.vars)
  /\ \A j \in 1..Len(p.vars) : VarSeen(p.vars[j], o.vars[j], types)
HeadSeen(tr, o) ==
  /\ o.names = tr.names
  /\ Has(o, "types") => o.types = tr.types       \* (not shown by the C interface)
  /\ o.tnames = [i \in 1..Len(tr.types) |-> tr.names[tr.types[i].name + 1]]
PointsSeen(tr, n, o) ==
  /\ Len(o.points) = n
  /\ \A i \in 1..n : PointSeen(tr.points[i], o.points[i], tr.types)
  /\ Has(o, "sizes") =>                          \* (not shown by the C interface)
       /\ Len(o.sizes) = n
       /\ \A i \in 1..n : /\ Len(o.sizes[i]) = Len(tr.points[i].sizes)
                          /\ \A j \in 1..Len(o.sizes[i]) :
                                /\ o.sizes[i][j][1] = tr.points[i].sizes[j].addr
                                /\ o.sizes[i][j][2] = tr.points[i].sizes[j].size
TraceSeen(tr, o) == HeadSeen(tr, o) /\ PointsSeen(tr, Len(tr.points), o)
DBSeen(es, os) == Len(os) = Len(es) /\ \A i \in 1..Len(es) : TraceSeen(es[i].tr, os[i])

-----------------------------------------------------------------------------
(* What a query shows *)
ResSeen(a, vs, o, types) ==
  /\ o.stmt = a.stmt
  /\ o.aux = a.aux \/ (Len(vs) = 0 /\ o.aux = <<>>)
  /\ Len(o.vars) = Len(vs)
  /\ \A j \in 1..Len(vs) : VarSeen(vs[j], o.vars[j], types)
\* the results of one point, in any order
PermSeen(a, os, types) ==
  LET n == Len(a.rs) IN
  /\ Len(os) = n
  /\ \/ \A j \in 1..n : ResSeen(a, a.rs[j], os[j], types)
     \/ \* equal as multisets
        /\ \A j \in 1..n : \E k \in 1..n : ResSeen(a, a.rs[k], os[j], types)
        /\ \A k \in 1..n : Cardinality({j \in 1..n : ResSeen(a, a.rs[k], os[j], types)})
                           = Cardinality({m \in 1..n : a.rs[m] = a.rs[k]})
\* one representative of each class new at this point: any binding of the point
ClassSeen(a, full, os, types) ==
  LET n == Len(a.rs) IN
  /\ Len(os) = n
  /\ \/ \A j \in 1..n : ResSeen(a, a.rs[j], os[j], types)
     \/ /\ \A j \in 1..n : \E k \in 1..Len(full.rs) : ResSeen(full, full.rs[k], os[j], types)
        /\ \A k \in 1..n : \E j \in 1..n : \E m \in 1..Len(full.rs) :
              /\ Key(full.stmt, full.rs[m]) = Key(a.stmt, a.rs[k])
              /\ ResSeen(full, full.rs[m], os[j], types)
RECURSIVE Offsets(_, _, _)
Offsets(ans, k, off) == IF k > Len(ans) THEN <<off>>
                        ELSE <<off>> \o Offsets(ans, k + 1, off + Len(ans[k].rs))
AnswerSeen(ans, full, keep, os, types) ==
  LET off == Offsets(ans, 1, 0)
      n   == Len(ans)
  IN  /\ Len(os) = off[n + 1]
      /\ \A k \in 1..n :
           LET seg == SubSeq(os, off[k] + 1, off[k + 1]) IN
           IF keep THEN PermSeen(ans[k], seg, types) ELSE ClassSeen(ans[k], full[k], seg, types)

Q(ev) == [vars |-> ev.vars, hard |-> ev.hard, soft |-> ev.soft, mask |-> ev.mask, stmt |-> ev.stmt]

FullAnswerOK(tr, ev) ==
  LET full == Answer(Q(ev), tr) IN
  ~Determined(full)
  \/ AnswerSeen(IF ev.keep = 1 THEN full ELSE Dedup(full), full, ev.keep = 1, ev.res, tr.types)

\* the points a seeded query may have answered for, given its results
PickSet(tr, ev) ==
  {i \in Eligible(Q(ev), tr) :
     LET a    == PointResults(Q(ev), tr.points[i], i)
         full == <<a>>
     IN  ~Determined(full)
         \/ AnswerSeen(IF ev.keep = 1 THEN full ELSE Dedup(full), full, ev.keep = 1, ev.res, tr.types)}
PickOK(tr, ev) == IF Eligible(Q(ev), tr) = {} THEN ev.res = <<>> ELSE PickSet(tr, ev) # {}

-----------------------------------------------------------------------------
\* a condition, evaluated as a value: TLC would otherwise follow each way of
\* satisfying it as a successor of its own
Check(c) == c = TRUE

Hold == UNCHANGED <<held, usage>>
Keep == UNCHANGED <<memo, hits, written, maps>> /\ Hold
Obs  == UNCHANGED dbvars

TCreate == IsEvent("D") /\ CreateDB(e.d) /\ Keep
\* results outlive the trace they were taken from (their blob contents do not)
Orphans(src) == /\ held' = [k \in DOMAIN held |-> IF held[k].src = src THEN [held[k] EXCEPT !.alive = FALSE] ELSE held[k]]
                /\ UNCHANGED <<memo, hits, written, maps, usage>>
TFreeDB == IsEvent("XD") /\ FreeDB(e.d) /\ Orphans(<<"d", e.d>>)
TAdd == /\ IsEvent("A")
        /\ Add(e.d, <<e.f, e.cut, e.max>>, Outcome(e.f, e.cut, e.max), e.ret)
        /\ e.n = Len(dbs'[e.d]) /\ Keep
\* a path that cannot be opened
TAddMissing == /\ IsEvent("AM") /\ Add(e.d, <<"none">>, [ok |-> FALSE, tr |-> <<>>], e.ret)
               /\ e.n = Len(dbs'[e.d]) /\ Keep
TRead == /\ IsEvent("R")
         /\ ReadSolo(e.h, <<e.f, e.cut, e.max>>, Outcome(e.f, e.cut, e.max), e.ret) /\ Keep
TFree == IsEvent("X") /\ FreeSolo(e.h) /\ Orphans(<<"t", e.h>>)
TCount == IsEvent("NT") /\ Obs /\ e.n = Len(dbs[e.d]) /\ Keep
TDumpDB == IsEvent("DD") /\ Obs /\ Check(DBSeen(dbs[e.d], e.trs)) /\ Keep
TDumpIdx == IsEvent("DI") /\ Obs /\ Check(TraceSeen(dbs[e.d][e.idx + 1].tr, e.tr)) /\ Keep
TDump == IsEvent("DT") /\ Obs /\ Check(TraceSeen(solo[e.h].tr, e.tr)) /\ Keep
\* every prefix of a file: e.rets[k] = 0 rejected, n + 1 accepted with n points
TCuts == /\ IsEvent("CUTS") /\ Obs
         /\ Check(LET b == Bytes(e.f)
                cuts == Cuts(b)
                tr == Decoded[e.f + 1].tr
                at(k) == {c \in cuts : c[1] = k}
            IN  /\ \A i \in 1..Len(e.rets) :
                     LET k == (i - 1) * e.step IN
                     IF at(k) = {} THEN e.rets[i] = 0
                     ELSE \E c \in at(k) : e.rets[i] = c[2] + 1
                /\ \A j \in 1..Len(e.full) :
                     \E c \in at(e.full[j].cut) : HeadSeen(tr, e.full[j].tr) /\ PointsSeen(tr, c[2], e.full[j].tr))
         /\ Keep

\* add_trace_points: every type name used becomes one 8-byte integer type, in
\* ascending order of the name index, signed if a value of it is negative
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN  <<m>> \o Ascending(S \ {m})
PtsTrace(ev) ==
  LET used == UNION {{ev.pts[i].vars[j].tn : j \in 1..Len(ev.pts[i].vars)} : i \in 1..Len(ev.pts)}
      neg  == UNION {{ev.pts[i].vars[j].tn : j \in {k \in 1..Len(ev.pts[i].vars) :
                                                      ev.pts[i].vars[k].val[8] >= 128}}
                       : i \in 1..Len(ev.pts)}
      ord  == Ascending(used)
      fmt(tn) == IF tn \in neg THEN FSigned ELSE FUnsigned
      idx(tn) == (CHOOSE k \in 1..Len(ord) : ord[k] = tn) - 1
  IN  [names  |-> ev.names,
       types  |-> [k \in 1..Len(ord) |-> [name |-> ord[k], fmt |-> fmt(ord[k]), size |-> 8]],
       points |-> [i \in 1..Len(ev.pts) |->
                     [stmt  |-> ev.pts[i].stmt, sizes |-> <<>>, aux |-> ev.pts[i].aux,
                      vars  |-> [j \in 1..Len(ev.pts[i].vars) |->
                                   LET v == ev.pts[i].vars[j] IN
                                   Var(v.n, idx(v.tn), fmt(v.tn), 8, v.val,
                                       [has |-> v.has, buf |-> v.buf])]]]]
TAddPoints ==
  /\ IsEvent("AP")
  /\ Add(e.d, <<"points", l>>, [ok |-> TRUE, tr |-> TLCEval(PtsTrace(e))], e.ret) /\ Keep

(* Concurrent additions: begin and end of the call are recorded, the moment of
   the commit is not. *)
TBegin == IsEvent("AB") /\ AddBegin(e.t, e.d, <<e.f, e.cut, e.max>>, Outcome(e.f, e.cut, e.max)) /\ Keep
TFinish == IsEvent("AE") /\ AddEnd(e.t, e.ret) /\ Keep
\* Commits in an order that the next dump of the database refutes lead nowhere
RECURSIVE NextDump(_, _)
NextDump(d, k) == IF k > Len(Log) THEN <<>>
                  ELSE IF Log[k].ev = "DD" /\ Log[k].d = d THEN <<k>>
                  ELSE NextDump(d, k + 1)
Promising(t) == LET d == flight[t].db
                    k == NextDump(d, l)
                    n == Len(dbs[d]) + 1
                IN  k = <<>> \/ (Len(Log[k[1]].trs) >= n /\ TraceSeen(flight[t].out.tr, Log[k[1]].trs[n]))
TCommit == /\ l <= Len(Log) /\ UNCHANGED l
           /\ \E t \in DOMAIN flight : (AddCommit(t) /\ Check(Promising(t))) \/ AddReject(t)
           /\ Keep

TBuild == IsEvent("TC") /\ Build(e.h, <<"built", l>>, e.tr) /\ Keep
TAddObject == /\ IsEvent("AC") /\ AddObject(e.d, solo[e.h])
              /\ e.n = Len(dbs'[e.d]) /\ Keep
TCopyDB == IsEvent("DC") /\ CopyDB(e.a, e.b) /\ Keep

TSerialize == IsEvent("S") /\ SaveDB(e.d, e.x) /\ Keep
TRestore == IsEvent("U") /\ LoadDB(e.x, e.d) /\ Keep

Ref(r) == IF Has(r, "h") THEN solo[r.h] ELSE dbs[r.d][r.idx + 1]
TCopy == IsEvent("TK") /\ Build(e.h, Ref(e.ref).id, Ref(e.ref).tr) /\ Keep
\* Writing: the bytes decode to the same trace
SameBut(t, u) == \* everything except buffer sizes of pointers
  /\ t.names = u.names /\ t.types = u.types /\ Len(t.points) = Len(u.points)
  /\ \A i \in 1..Len(t.points) :
       LET p == t.points[i]  q == u.points[i] IN
       /\ p.stmt = q.stmt /\ p.sizes = q.sizes /\ p.aux = q.aux /\ Len(p.vars) = Len(q.vars)
       /\ \A j \in 1..Len(p.vars) :
            /\ p.vars[j].n = q.vars[j].n /\ p.vars[j].t = q.vars[j].t /\ p.vars[j].f = q.vars[j].f
            /\ p.vars[j].size = q.vars[j].size /\ p.vars[j].val = q.vars[j].val
TWrite == /\ IsEvent("W") /\ Obs
          /\ Check(LET t == Ref(e.ref).tr
                 d == Decode(e.bytes, 0)
             IN  /\ d.ok
                 /\ SameBut(t, d.tr)
                 \* memory events before the variables: buffer sizes survive too
                 /\ d.tr # t => Decode(Encode(t), 0).tr # t)
          /\ written' = Put(written, e.f, e.bytes)
          /\ UNCHANGED <<memo, hits, maps>> /\ Hold

TQuery == /\ IsEvent("Q") /\ Obs
          /\ LET en == dbs[e.d][e.idx + 1]
                 key == <<en.id, e.qk, e.seed>>
             IN /\ Check(IF e.seed = <<0, 0>> THEN FullAnswerOK(en.tr, e) ELSE PickOK(en.tr, e))
                /\ e.cxx            \* the C++ interface gives the same results
                /\ Check(key \in DOMAIN memo => memo[key] = e.res)
                /\ memo' = IF e.memo THEN Put(memo, key, e.res) ELSE memo
                /\ hits' = IF e.seed # <<0, 0>> /\ e.memo
                           THEN LET hk == <<en.id, e.qk>> IN
                                Put(hits, hk, PickSet(en.tr, e) \cup
                                              (IF hk \in DOMAIN hits THEN hits[hk] ELSE {}))
                           ELSE hits
          /\ UNCHANGED <<written, maps>> /\ Hold

(* Identifiers of projects, as the Lisp front end packs and unpacks them *)
IdSeen(u, o) == u.has = o.has /\ (u.has => u.file = B2(o.file)) /\ u.ast = B2(o.ast)
\* a point with a file and a statement gets the identifier that is read back
TPack == /\ IsEvent("ID") /\ Obs
         /\ Check(LET id == [has |-> e.has, file |-> B2(e.file), ast |-> B2(e.ast)]
                  IN  /\ Fits(id, e.fb, e.sb)
                      /\ B2(e.packed) = Pack(id, e.fb, e.sb)
                      /\ B2(e.emitted) = Pack(id, e.fb, e.sb)    \* by the instrumenter
                      /\ IdSeen(id, e.back))
         /\ Keep
\* file and statement of all points of a trace
TIds == /\ IsEvent("DF") /\ Obs
        /\ Check(LET ps == dbs[e.d][e.idx + 1].tr.points
                 IN  /\ Len(e.ids) = Len(ps)
                     /\ \A i \in 1..Len(ps) : IdSeen(Unpack(B2(ps[i].stmt), e.fb, e.sb), e.ids[i]))
        /\ Keep
\* a query restricted to a file: the query of the points of that file
TQueryFile ==
  /\ IsEvent("QF") /\ Obs
  /\ Check(LET tr == dbs[e.d][e.idx + 1].tr
               f  == B2(e.file)
               of == [tr EXCEPT !.points = SelectSeq(tr.points, LAMBDA p : InFile(B2(p.stmt), f, e.fb, e.sb))]
               ev == [e EXCEPT !.mask = Zero(W64), !.stmt = Zero(W64)]
           IN  IF e.seed = <<0, 0>> THEN FullAnswerOK(of, ev) ELSE PickOK(of, ev))
  /\ Keep

(* Results in the caller's hands: they stay what they were when they were
   handed out, whatever happens, until they are given back *)
Src(r) == IF Has(r, "h") THEN <<"t", r.h>> ELSE <<"d", r.d>>
THoldPoints == /\ IsEvent("HP") /\ Obs /\ e.k \notin DOMAIN held
               /\ held' = Put(held, e.k, [src |-> Src(e.ref), alive |-> TRUE, q |-> FALSE,
                                          tr |-> Ref(e.ref).tr, res |-> <<>>])
               /\ UNCHANGED <<memo, hits, written, maps, usage>>
THoldQuery == /\ IsEvent("HQ") /\ Obs /\ e.k \notin DOMAIN held
              /\ LET en == dbs[e.d][e.idx + 1] IN
                 Check(IF e.seed = <<0, 0>> THEN FullAnswerOK(en.tr, e) ELSE PickOK(en.tr, e))
              /\ held' = Put(held, e.k, [src |-> <<"d", e.d>>, alive |-> TRUE, q |-> TRUE,
                                         tr |-> <<>>, res |-> e.res])
              /\ UNCHANGED <<memo, hits, written, maps, usage>>
\* without the contents of blobs
Bare(v) == IF v.f = FBlob THEN [v EXCEPT !.val = <<>>] ELSE v
BareP(p) == [p EXCEPT !.vars = [j \in 1..Len(p.vars) |-> Bare(p.vars[j])]]
TLookHeld ==
  /\ IsEvent("HD") /\ Obs
  /\ e.blobs => held[e.k].alive
  /\ Check(LET g == held[e.k]
               n == IF g.q THEN Len(g.res) ELSE Len(g.tr.points)
               b(p) == IF e.blobs THEN p ELSE BareP(p)
           IN  /\ Len(e.pts) = n
               /\ IF g.q THEN \A i \in 1..n : e.pts[i] = b(g.res[i])
                  ELSE \A i \in 1..n : PointSeen(b(g.tr.points[i]), e.pts[i], g.tr.types))
  /\ Keep
TGiveBack == /\ IsEvent("HX") /\ Obs /\ e.k \in DOMAIN held /\ held' = Drop(held, e.k)
             /\ UNCHANGED <<memo, hits, written, maps, usage>>

(* Memory and descriptors when everything has been released *)
TMark == /\ IsEvent("MARK") /\ Obs
         /\ DOMAIN dbs = {} /\ DOMAIN solo = {} /\ DOMAIN held = {} /\ DOMAIN flight = {}
         /\ usage' = Append(usage, [bytes |-> e.bytes, fds |-> e.fds])
         /\ UNCHANGED <<memo, hits, written, maps, held>>
\* the same work again and again does not take more and more
TBound == /\ IsEvent("BOUND") /\ Obs
          /\ Check(LET n == Len(usage) IN
                   /\ n >= e.over
                   /\ \E i \in (n - e.over + 2)..n : usage[i].bytes <= usage[i - 1].bytes
                   /\ \A i \in 2..n : usage[i].fds = usage[1].fds)
          /\ usage' = <<>> /\ UNCHANGED <<memo, hits, written, maps, held>>
\* after many seeds every eligible point has been chosen
TCover == /\ IsEvent("COVER") /\ Obs
          /\ LET en == dbs[e.d][e.idx + 1] IN
             hits[<<en.id, e.qk>>] = Eligible(Q(e), en.tr)
          /\ Keep

\* many points and not so many seeds: some point between two positions has been chosen
TCoverBy == /\ IsEvent("COVERBY") /\ Obs
            /\ LET en == dbs[e.d][e.idx + 1] IN
               \E i \in hits[<<en.id, e.qk>>] : e.lo <= i /\ i <= e.hi
            /\ Keep

TEq == /\ IsEvent("E") /\ Obs
       /\ Check(LET same == Ref(e.a).tr = Ref(e.b).tr IN
                e.eq = same /\ e.eqr = same /\ (same => e.heq))
       /\ Keep
TEqDB == /\ IsEvent("ED") /\ Obs
         /\ Check(LET s == [i \in 1..Len(dbs[e.a]) |-> dbs[e.a][i].tr]
                t == [i \in 1..Len(dbs[e.b]) |-> dbs[e.b][i].tr]
            IN  e.eq = (s = t) /\ e.eqr = (s = t) /\ (s = t => e.heq))
         /\ Keep
\* all pairs of points: 1 equal, 2 hash equal, 4 less, 8 greater
TEqPts == /\ IsEvent("EP") /\ Obs
          /\ Check(LET p == Ref(e.a).tr.points
                 q == Ref(e.b).tr.points
             IN  /\ Len(e.m) = Len(p)
                 /\ \A i \in 1..Len(p) : Len(e.m[i]) = Len(q) /\ \A j \in 1..Len(q) :
                      LET same == i = j /\ p[i] = q[j]
                          m == e.m[i][j]
                      IN  /\ same <=> m % 2 = 1
                          /\ same => (m \div 2) % 2 = 1
                          /\ same <=> (m \div 4) = 0            \* neither less nor greater
                          /\ m \div 4 # 3                       \* not both
                )
          /\ Keep

(* Memory maps driven directly *)
TMapNew == IsEvent("MN") /\ Obs /\ maps' = Put(maps, e.m, Empty) /\ UNCHANGED <<memo, hits, written>> /\ Hold
TMapClear == IsEvent("MX") /\ Obs /\ maps' = Put(maps, e.m, Empty) /\ UNCHANGED <<memo, hits, written>> /\ Hold
TMapUpd == /\ IsEvent("MU") /\ Obs
           /\ maps' = Put(maps, e.m, Update(maps[e.m], e.a, e.s)) /\ UNCHANGED <<memo, hits, written>> /\ Hold
TMapLook == /\ IsEvent("ML") /\ Obs
            /\ Check(\A i \in 1..Len(e.as) :
                 LET r == Lookup(maps[e.m], e.as[i]) IN
                 e.res[i] = IF r.has THEN r.buf ELSE Ones(W64))
            /\ Keep

TReset == /\ IsEvent("RESET")
          /\ dbs' = NoFn /\ solo' = NoFn /\ texts' = NoFn /\ flight' = NoFn
          /\ memo' = NoFn /\ hits' = NoFn /\ written' = NoFn /\ maps' = NoFn
          /\ held' = NoFn /\ usage' = <<>>

TInit == DBInit /\ l = 1 /\ memo = NoFn /\ hits = NoFn /\ written = NoFn /\ maps = NoFn
         /\ held = NoFn /\ usage = <<>>

TNext == \/ TCreate \/ TFreeDB \/ TAdd \/ TAddMissing \/ TRead \/ TFree \/ TCount
         \/ TDumpDB \/ TDumpIdx \/ TDump \/ TCuts \/ TAddPoints \/ TSerialize \/ TRestore
         \/ TWrite \/ TQuery \/ TCover \/ TCoverBy \/ TEq \/ TEqDB \/ TEqPts
         \/ TMapNew \/ TMapClear \/ TMapUpd \/ TMapLook \/ TReset
         \/ TPack \/ TIds \/ TQueryFile
         \/ TBuild \/ TAddObject \/ TCopyDB \/ TCopy
         \/ THoldPoints \/ THoldQuery \/ TLookHeld \/ TGiveBack \/ TMark \/ TBound
         \/ TBegin \/ TFinish \/ TCommit
TSpec == TInit /\ [][TNext]_tvars

\* Everything but the position is determined by the log, up to the order of
\* unfinished commits: fingerprints need not cover the (large) traces.
TView == <<l, flight, [d \in DOMAIN dbs |-> [i \in 1..Len(dbs[d]) |-> dbs[d][i].id]]>>

\* the furthest event explained
ASSUME TLCSet(1, 0)
Reach == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Accepted == PrintT(<<"REACHED", TLCGet(1) - 1, Len(Log)>>) /\ TLCGet(1) = Len(Log) + 1
=============================================================================
