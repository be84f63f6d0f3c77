-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* The meaning of queries: predicate evaluation over exact arithmetic,      *)
(* bindings, soft predicates, duplicate removal and seeded choice.          *)
(*                                                                          *)
(* Predicates are records [k |-> kind, c |-> children] with leaves          *)
(* [k |-> "u"|"s"|"f", v |-> word], and [k |-> "value"|"size", i |-> var],   *)
(* [k |-> "distinct", i |-> var, j |-> var], [k |-> "null"].                *)
(*                                                                          *)
(* Numbers: integers are exact.  As soon as a float or a quotient is         *)
(* involved the implementation calculates with decimal floats of at least    *)
(* 50 digits; the specification calculates with exact rationals and leaves   *)
(* open ("U") what that precision does not settle.                           *)
(***************************************************************************)
EXTENDS BigNum, Sequences, SequencesExt, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Values *)
Undef == [k |-> "undef"]
NumI(x) == [k |-> "int", i |-> x]
\* q: quality "exact" (decimal calculation is exact), "close" (relative error
\* below 10^-35), "vague" (cancellation may have destroyed the precision)
NumR(r, q) == [k |-> "rat", r |-> r, q |-> q]
\* not a number the model describes (NaN, infinities)
Odd == [k |-> "odd"]

Ten40 == NPow(<<10>>, 40)
Ten30 == NPow(<<10>>, 30)

\* denominators of exact values are powers of two
\* n/2^k needs no more than 40 decimal digits
FewDigits(r) == IsPow2(r.den) /\ Len(r.den) <= 12
                /\ NCmp(NMul(r.num.mag, NPow(<<5>>, Log2(r.den))), Ten40) < 0
\* cancel common powers of two
Reduce(r) ==
  IF ~IsPow2(r.den) THEN r
  ELSE IF r.num.mag = <<>> THEN [num |-> r.num, den |-> <<1>>]
  ELSE LET k == Min2(NTz(r.num.mag), Log2(r.den))
       IN  [num |-> MkInt(r.num.neg, NShr(r.num.mag, k)), den |-> NPow2(Log2(r.den) - k)]
Settle(r0, q) == LET r == Reduce(r0) IN IF q = "exact" /\ ~FewDigits(r) THEN NumR(r, "close") ELSE NumR(r, q)

ToR(v) == IF v.k = "int" THEN Settle(RInt(v.i), "exact") ELSE v
Worst(p, q) == IF "vague" \in {p, q} THEN "vague" ELSE IF "close" \in {p, q} THEN "close" ELSE "exact"

(* IEEE 754 *)
FloatParts(sign, e, mant, ebias, ebits, mbits) ==
  \* value = mant * 2^(e - ebias - mbits), hidden bit added by the caller
  LET sh == e - ebias - mbits IN
  IF sh >= 0 THEN [num |-> MkInt(sign, NMul(mant, NPow2(sh))), den |-> <<1>>]
  ELSE [num |-> MkInt(sign, mant), den |-> NPow2(0 - sh)]

Float4(w) ==
  LET sign == w[4] >= 128
      e    == 2 * (w[4] % 128) + (w[3] \div 128)
      m    == <<w[1], w[2], w[3] % 128>>
  IN  IF e = 255 THEN Odd
      ELSE Settle(FloatParts(sign, IF e = 0 THEN 1 ELSE e,
                             NTrim(IF e = 0 THEN m ELSE [m EXCEPT ![3] = @ + 128]), 127, 8, 23), "exact")
Float8(w) ==
  LET sign == w[8] >= 128
      e    == 16 * (w[8] % 128) + (w[7] \div 16)
      m    == <<w[1], w[2], w[3], w[4], w[5], w[6], w[7] % 16>>
  IN  IF e = 2047 THEN Odd
      ELSE Settle(FloatParts(sign, IF e = 0 THEN 1 ELSE e,
                             NTrim(IF e = 0 THEN m ELSE [m EXCEPT ![7] = @ + 16]), 1023, 11, 52), "exact")

VarNum(v) ==
  CASE v.f \in {0, 3} -> NumI(IFromU(v.val))
    [] v.f = 1 -> NumI(IFromS(v.val))
    [] v.f = 2 -> IF v.size = 8 THEN Float8(v.val) ELSE IF v.size = 4 THEN Float4(SubSeq(v.val, 1, 4)) ELSE Odd
    [] OTHER -> Undef
VarSize(v) == IF v.has THEN NumI(IFromU(v.buf)) ELSE Undef

IsZeroNum(v) == IF v.k = "int" THEN ISign(v.i) = 0 ELSE RSign(v.r) = 0

Arith(op, x, y) ==
  IF x = Undef \/ y = Undef THEN Undef
  ELSE IF op = "/" /\ y # Odd /\ IsZeroNum(y) THEN (IF y.k = "rat" /\ y.q = "vague" THEN Odd ELSE Undef)
  ELSE IF x = Odd \/ y = Odd THEN Odd
  ELSE IF op # "/" /\ x.k = "int" /\ y.k = "int" THEN
       NumI(CASE op = "+" -> IAdd(x.i, y.i) [] op = "-" -> IAdd(x.i, INeg(y.i)) [] op = "*" -> IMul(x.i, y.i))
  ELSE
  LET a == ToR(x)
      b == ToR(y)
      w == Worst(a.q, b.q)
      \* same sign addition keeps the relative precision
      addq(sx, sy) == IF w = "close" /\ sx * sy < 0 THEN "vague" ELSE w
  IN
  CASE op = "+" -> Settle(RAdd(a.r, b.r), addq(RSign(a.r), RSign(b.r)))
    [] op = "-" -> Settle(RAdd(a.r, RNeg(b.r)), addq(RSign(a.r), 0 - RSign(b.r)))
    [] op = "*" -> Settle(RMul(a.r, b.r), w)
    [] op = "/" -> IF b.q = "vague" THEN Odd
                   ELSE IF w = "exact" /\ RSign(a.r) = 0 THEN a
                   ELSE NumR(RDiv(a.r, b.r), IF w = "exact" THEN "close" ELSE w)

RECURSIVE Num(_, _)
Num(p, vs) ==
  CASE p.k = "value" -> VarNum(vs[p.i + 1])
    [] p.k = "size"  -> VarSize(vs[p.i + 1])
    [] p.k = "u"     -> NumI(IFromU(p.v))
    [] p.k = "s"     -> NumI(IFromS(p.v))
    [] p.k = "f"     -> Float8(p.v)
    [] OTHER         -> CHOOSE v \in {Arith(p.k, x, y) : x \in {Num(p.c[1], vs)}, y \in {Num(p.c[2], vs)}} : TRUE

-----------------------------------------------------------------------------
(* Three-valued truth: "T", "F", and "U" where the model does not commit *)
Tri(b) == IF b THEN "T" ELSE "F"
Close(a, b) == LET d == RAdd(a, RNeg(b))
                   m == IF NCmp(NMul(a.num.mag, b.den), NMul(b.num.mag, a.den)) > 0 THEN a ELSE b
               IN  NCmp(NMul(NMul(d.num.mag, Ten30), m.den), NMul(m.num.mag, d.den)) <= 0
\* -1, 0, 1 or 2 (not settled)
NumCmp(x, y) ==
  IF x.k = "int" /\ y.k = "int" THEN ICmp(x.i, y.i)
  ELSE LET a == ToR(x)
           b == ToR(y)
           q == Worst(a.q, b.q)
       IN  IF q = "vague" THEN 2
           ELSE IF q = "close" /\ Close(a.r, b.r) THEN 2
           ELSE RCmp(a.r, b.r)
Compare(op, x, y) ==
  IF x = Undef \/ y = Undef THEN "F"
  ELSE IF x = Odd \/ y = Odd THEN "U"
  ELSE LET c == NumCmp(x, y) IN
       IF c = 2 THEN "U"
       ELSE Tri(CASE op = ">" -> c > 0 [] op = ">=" -> c >= 0 [] op = "<" -> c < 0
                  [] op = "<=" -> c <= 0 [] op = "=" -> c = 0)

Comparisons == {">", ">=", "<", "<=", "="}

RECURSIVE Holds(_, _)
Holds(p, vs) ==
  CASE p.k = "null" -> "T"
    [] p.k = "and" -> LET r == {Holds(p.c[i], vs) : i \in 1..Len(p.c)}
                      IN  IF "F" \in r THEN "F" ELSE IF "U" \in r THEN "U" ELSE "T"
    [] p.k = "or"  -> LET r == {Holds(p.c[i], vs) : i \in 1..Len(p.c)}
                      IN  IF "T" \in r THEN "T" ELSE IF "U" \in r THEN "U" ELSE "F"
    [] p.k = "not" -> LET r == Holds(p.c[1], vs)
                      IN  IF r = "T" THEN "F" ELSE IF r = "F" THEN "T" ELSE "U"
    [] p.k = "distinct" -> Tri(vs[p.i + 1] # vs[p.j + 1])
    [] OTHER -> CHOOSE v \in {Compare(p.k, x, y) : x \in {Num(p.c[1], vs)}, y \in {Num(p.c[2], vs)}} : TRUE

-----------------------------------------------------------------------------
(* Bindings of a point: all index tuples, the first free variable varying
   fastest.  A query is [vars, hard, soft, mask, stmt]. *)
Allowed(fv, var) == \E i \in 1..Len(fv) : fv[i] = var.t
Matching(fv, pt) == SelectSeq([i \in 1..Len(pt.vars) |-> i], LAMBDA i : Allowed(fv, pt.vars[i]))

RECURSIVE Tuples(_, _)
Tuples(ms, n) ==                    \* tuples of the first n components
  IF n = 0 THEN << <<>> >>
  ELSE LET rest == TLCEval(Tuples(ms, n - 1))
           k    == Len(rest)
           m    == Len(ms[n])
       IN  [j \in 1..(k * m) |-> Append(rest[((j - 1) % k) + 1], ms[n][((j - 1) \div k) + 1])]

Bindings(q, pt) ==
  LET ms == TLCEval([i \in 1..Len(q.vars) |-> Matching(q.vars[i], pt)])
      ts == TLCEval(Tuples(ms, Len(q.vars)))
  IN  [j \in 1..Len(ts) |-> [i \in 1..Len(q.vars) |-> pt.vars[ts[j][i]]]]

Selected(q, pt) == WAnd(pt.stmt, q.mask) = q.stmt

\* results of one point: sequence of variable sequences, or undetermined
Undet == << <<[k |-> "undetermined"]>> >>
ResultsAt(q, pt) ==
  LET bs == TLCEval(Bindings(q, pt))
      hv == TLCEval([j \in 1..Len(bs) |-> Holds(q.hard, bs[j])])
      ok == SelectSeq([j \in 1..Len(bs) |-> j], LAMBDA j : hv[j] = "T")
  IN
  IF \E j \in 1..Len(bs) : hv[j] = "U" THEN Undet
  ELSE IF Len(q.soft) = 0 \/ Len(ok) = 0 THEN [j \in 1..Len(ok) |-> bs[ok[j]]]
  ELSE
  LET sv == TLCEval([j \in 1..Len(ok) |-> [s \in 1..Len(q.soft) |-> Holds(q.soft[s], bs[ok[j]])]])
      cnt == TLCEval([j \in 1..Len(ok) |-> Cardinality({s \in 1..Len(q.soft) : sv[j][s] = "T"})])
      best == CHOOSE m \in {cnt[j] : j \in 1..Len(ok)} : \A j \in 1..Len(ok) : cnt[j] <= m
      keep == SelectSeq([j \in 1..Len(ok) |-> j], LAMBDA j : cnt[j] = best)
  IN
  IF \E j \in 1..Len(ok), s \in 1..Len(q.soft) : sv[j][s] = "U" THEN Undet
  ELSE [j \in 1..Len(keep) |-> bs[ok[keep[j]]]]

\* the answer per point, in trace order, for the points with the given indices
Eligible(q, tr) == {i \in 1..Len(tr.points) : Selected(q, tr.points[i])}
EligibleSeq(q, tr) == SelectSeq([i \in 1..Len(tr.points) |-> i], LAMBDA i : Selected(q, tr.points[i]))
PointResults(q, pt, i) == [pt |-> i, stmt |-> pt.stmt, aux |-> pt.aux, rs |-> TLCEval(ResultsAt(q, pt))]
\* sequence of [pt, stmt, aux, rs]
Answer(q, tr) ==
  LET el == EligibleSeq(q, tr)
  IN  TLCEval([k \in 1..Len(el) |-> PointResults(q, tr.points[el[k]], el[k])])

Determined(ans) == \A k \in 1..Len(ans) : ans[k].rs # Undet

(* Duplicate removal *)
Key(stmt, vs) == <<stmt, [i \in 1..Len(vs) |-> <<vs[i].n, vs[i].t>>]>>
Dedup(ans) ==
  LET step(acc, a) ==
        LET st == FoldLeft(LAMBDA s, vs : IF Key(a.stmt, vs) \in s.seen THEN s
                                          ELSE [seen |-> s.seen \cup {Key(a.stmt, vs)},
                                                out |-> Append(s.out, vs)],
                           [seen |-> acc.seen, out |-> <<>>], a.rs)
        IN  [seen |-> st.seen, out |-> Append(acc.out, [a EXCEPT !.rs = st.out])]
  IN  FoldLeft(step, [seen |-> {}, out |-> <<>>], ans).out
=============================================================================
