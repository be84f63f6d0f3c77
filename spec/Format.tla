------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The binary trace format and its reader.                                  *)
(*                                                                          *)
(*   file   == namebytes:W64  name\0 name\0 ...                             *)
(*             ntypes:W32     (nameindex:W32 format:W32 size:W32)*          *)
(*             point*                                                       *)
(*   point  == entry* END                                                   *)
(*   entry  == STMT id:W64 | VAR nameindex:W32 typeindex:W32 value          *)
(*           | BUF addr:W64 size:W64 | AUX word:W64                         *)
(*   value  == bytes of the type's size | size:W32 bytes  (blob, size 0)    *)
(*                                                                          *)
(* The reader is one transition operator, Step, which consumes one          *)
(* syntactic unit (dictionary, type, entry) of the input available so far.  *)
(* It serves as the action of the reader's state machine (MC_Format: lazily *)
(* fed input, every cut) and, iterated, as the function Decode, the oracle   *)
(* for the implementation.                                                  *)
(***************************************************************************)
EXTENDS MemMap, Integers, FiniteSets, SequencesExt

CONSTANTS W64, W32          \* widths in bytes (8 and 4 in the real format)

\* formats
FUnsigned == 0  FSigned == 1  FFloat == 2  FPointer == 3  FBlob == 4
\* tags
TEnd == 0  TStmt == 1  TVar == 2  TBuf == 3  TAux == 4

SignedSizes == {s \in {1, 2, 4, 8} : s <= W64}

NoBuf == [has |-> FALSE, buf |-> Zero(W64)]

EmptyPoint == [stmt |-> Zero(W64), sizes |-> <<>>, vars |-> <<>>, aux |-> <<>>]

Reader0 == [st |-> "names", pos |-> 0, ntypes |-> 0,
            names |-> <<>>, types |-> <<>>, points |-> <<>>,
            cur |-> EmptyPoint, mm |-> Empty]

Done(rd) == rd.st \in {"ok", "bad"}

-----------------------------------------------------------------------------
(* Pieces of the input *)
Take(bytes, pos, n) == SubSeq(bytes, pos + 1, pos + n)
Avail(bytes, rd) == Len(bytes) - rd.pos

Bad(rd) == [rd EXCEPT !.st = "bad"]
\* input exhausted in the middle of a unit: wait for more, or reject at the end
Short(eof, rd) == IF eof THEN Bad(rd) ELSE rd

\* the names of a dictionary whose last byte is 0
SplitNames(bs) ==
  LET zs == SelectSeq([i \in 1..Len(bs) |-> i], LAMBDA i : bs[i] = 0)
  IN  [k \in 1..Len(zs) |-> SubSeq(bs, IF k = 1 THEN 1 ELSE zs[k - 1] + 1, zs[k] - 1)]

(* Header *)
StepNames(bytes, eof, rd) ==
  IF Avail(bytes, rd) < W64 THEN Short(eof, rd)
  ELSE LET n == WNat(Take(bytes, rd.pos, W64)) IN
       IF n = 0 THEN [rd EXCEPT !.pos = @ + W64, !.st = "ntypes"]
       ELSE IF Avail(bytes, rd) - W64 < n THEN Short(eof, rd)
       ELSE LET bs == Take(bytes, rd.pos + W64, n) IN
            IF bs[n] # 0 THEN Bad(rd)
            ELSE [rd EXCEPT !.pos = @ + W64 + n, !.st = "ntypes", !.names = SplitNames(bs)]

StepNTypes(bytes, eof, rd) ==
  IF Avail(bytes, rd) < W32 THEN Short(eof, rd)
  ELSE LET n == WNat(Take(bytes, rd.pos, W32)) IN
       [rd EXCEPT !.pos = @ + W32, !.ntypes = n,
                  !.st = IF n = 0 THEN "points" ELSE "types"]

StepType(bytes, eof, rd) ==
  IF Avail(bytes, rd) < 3 * W32 THEN Short(eof, rd)
  ELSE LET nm == WNat(Take(bytes, rd.pos, W32))
           fm == WNat(Take(bytes, rd.pos + W32, W32))
           sz == WNat(Take(bytes, rd.pos + 2 * W32, W32))
       IN  IF fm > FBlob \/ nm >= Len(rd.names) THEN Bad(rd)
           ELSE [rd EXCEPT !.pos = @ + 3 * W32,
                           !.types = Append(@, [name |-> nm, fmt |-> fm, size |-> sz]),
                           !.st = IF Len(rd.types) + 1 = rd.ntypes THEN "points" ELSE "types"]

(* Entries.  All positions are relative to the byte after the tag. *)
Scalar(fm, bs) == IF fm = FSigned THEN SignExt(bs, W64) ELSE ZeroExt(bs, W64)

Var(nm, ty, fm, sz, val, b) ==
  [n |-> nm, t |-> ty, f |-> fm, size |-> sz, val |-> val, has |-> b.has, buf |-> b.buf]

PtrBuf(mm, val) == LET r == Lookup(mm, val) IN IF r.has THEN r ELSE NoBuf

StepVar(bytes, eof, rd) ==
  LET p == rd.pos + 1
      a == Avail(bytes, rd) - 1
  IN
  IF a < 2 * W32 THEN Short(eof, rd)
  ELSE
  LET nm == WNat(Take(bytes, p, W32))
      ty == WNat(Take(bytes, p + W32, W32))
  IN
  IF nm >= Len(rd.names) \/ ty >= Len(rd.types) THEN Bad(rd)
  ELSE
  LET fm == rd.types[ty + 1].fmt
      sz == rd.types[ty + 1].size
      add(v, used) == [rd EXCEPT !.pos = p + used, !.cur.vars = Append(@, v)]
  IN
  IF fm = FBlob /\ sz = 0 THEN
       IF a < 3 * W32 THEN Short(eof, rd)
       ELSE LET n == WNat(Take(bytes, p + 2 * W32, W32)) IN
            IF a - 3 * W32 < n THEN Short(eof, rd)
            ELSE add(Var(nm, ty, fm, n, Take(bytes, p + 3 * W32, n), NoBuf), 3 * W32 + n)
  ELSE IF fm = FSigned /\ sz \notin SignedSizes THEN Bad(rd)
  ELSE IF fm # FBlob /\ sz > W64 THEN Bad(rd)
  ELSE IF a - 2 * W32 < sz THEN Short(eof, rd)
  ELSE LET bs == Take(bytes, p + 2 * W32, sz) IN
       IF fm = FBlob THEN add(Var(nm, ty, fm, sz, bs, NoBuf), 2 * W32 + sz)
       ELSE LET v == Scalar(fm, bs) IN
            add(Var(nm, ty, fm, sz, v, IF fm = FPointer THEN PtrBuf(rd.mm, v) ELSE NoBuf),
                2 * W32 + sz)

StepEntry(bytes, eof, max, rd) ==
  IF max # 0 /\ Len(rd.points) >= max THEN [rd EXCEPT !.st = "ok"]
  ELSE IF Avail(bytes, rd) = 0 THEN (IF eof THEN [rd EXCEPT !.st = "ok"] ELSE rd)
  ELSE
  LET tag == bytes[rd.pos + 1]
      a   == Avail(bytes, rd) - 1
      w(i) == Take(bytes, rd.pos + 1 + i * W64, W64)
  IN
  CASE tag = TEnd -> [rd EXCEPT !.pos = @ + 1, !.points = Append(@, rd.cur), !.cur = EmptyPoint]
    [] tag = TStmt -> IF a < W64 THEN Short(eof, rd)
                      ELSE [rd EXCEPT !.pos = @ + 1 + W64, !.cur.stmt = w(0)]
    [] tag = TAux  -> IF a < W64 THEN Short(eof, rd)
                      ELSE [rd EXCEPT !.pos = @ + 1 + W64, !.cur.aux = Append(@, w(0))]
    [] tag = TBuf  -> IF a < 2 * W64 THEN Short(eof, rd)
                      ELSE [rd EXCEPT !.pos = @ + 1 + 2 * W64,
                                      !.cur.sizes = Append(@, [addr |-> w(0), size |-> w(1)]),
                                      !.mm = Update(@, w(0), w(1))]
    [] tag = TVar  -> StepVar(bytes, eof, rd)
    [] OTHER       -> Bad(rd)

Step(bytes, eof, max, rd) ==
  CASE rd.st = "names"  -> StepNames(bytes, eof, rd)
    [] rd.st = "ntypes" -> StepNTypes(bytes, eof, rd)
    [] rd.st = "types"  -> StepType(bytes, eof, rd)
    [] rd.st = "points" -> StepEntry(bytes, eof, max, rd)
    [] OTHER            -> rd

-----------------------------------------------------------------------------
(* Decode: the whole file is available.  2^k-fold iteration of Step. *)
RECURSIVE Iter(_, _, _, _)
Iter(bytes, max, k, rd) ==
  IF Done(rd) THEN rd
  ELSE IF k = 0 THEN Step(bytes, TRUE, max, rd)
  ELSE LET h == Iter(bytes, max, k - 1, rd) IN Iter(bytes, max, k - 1, h)

TraceOf(rd) == [names |-> rd.names, types |-> rd.types, points |-> rd.points]

\* 2^24 steps are more than any file of the model can take (one byte per step at least)
Decode(bytes, max) ==
  LET rd == Iter(bytes, max, 24, Reader0) IN
  [ok |-> rd.st = "ok", tr |-> TraceOf(rd)]

\* Can the reader decide on these bytes alone, whatever follows them?
RECURSIVE Decided0(_, _, _)
Decided0(bytes, max, rd) ==
  LET n == Step(bytes, FALSE, max, rd)
  IN  IF Done(n) THEN TRUE ELSE IF n = rd THEN FALSE ELSE Decided0(bytes, max, n)
Decided(bytes, max) == Decided0(bytes, max, Reader0)

(* The positions at which the input may end without being rejected, with the
   number of points complete there: what Decode says of every prefix
   (CutsSound in MC_Format). *)
RECURSIVE CutIter(_, _, _)
CutIter(bytes, k, c) ==
  IF Done(c.rd) THEN c
  ELSE IF k = 0 THEN
       LET nrd == Step(bytes, TRUE, 0, c.rd)
       IN  [rd |-> nrd,
            cuts |-> IF c.rd.st = "points"
                     THEN c.cuts \cup {<<c.rd.pos, Len(c.rd.points)>>} ELSE c.cuts]
  ELSE LET h == CutIter(bytes, k - 1, c) IN CutIter(bytes, k - 1, h)
Cuts(bytes) == CutIter(bytes, 24, [rd |-> Reader0, cuts |-> {}]).cuts

-----------------------------------------------------------------------------
(* Encode: the writer's canonical form.  Within a point memory events come
   first, then variables, then auxiliary values. *)
FlattenS(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

EncNames(names) ==
  LET bs == FlattenS([i \in 1..Len(names) |-> Append(names[i], 0)])
  IN  NatW(Len(bs), W64) \o bs
EncTypes(types) ==
  NatW(Len(types), W32) \o
  FlattenS([i \in 1..Len(types) |-> NatW(types[i].name, W32) \o NatW(types[i].fmt, W32)
                                      \o NatW(types[i].size, W32)])
EncStmt(w) == <<TStmt>> \o w
EncBuf(s) == <<TBuf>> \o s.addr \o s.size
EncAux(w) == <<TAux>> \o w
EncVar(v, types) ==
  <<TVar>> \o NatW(v.n, W32) \o NatW(v.t, W32) \o
  (IF v.f # FBlob THEN SubSeq(v.val, 1, v.size)
   ELSE IF types[v.t + 1].size = 0 THEN NatW(v.size, W32) \o v.val
   ELSE v.val)
EncPoint(p, types) ==
  EncStmt(p.stmt) \o FlattenS([i \in 1..Len(p.sizes) |-> EncBuf(p.sizes[i])])
                  \o FlattenS([i \in 1..Len(p.vars) |-> EncVar(p.vars[i], types)])
                  \o FlattenS([i \in 1..Len(p.aux) |-> EncAux(p.aux[i])]) \o <<TEnd>>
Encode(tr) ==
  EncNames(tr.names) \o EncTypes(tr.types)
    \o FlattenS([i \in 1..Len(tr.points) |-> EncPoint(tr.points[i], tr.types)])
=============================================================================
