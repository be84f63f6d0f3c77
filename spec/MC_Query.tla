------------------------------ MODULE MC_Query ------------------------------
(***************************************************************************)
(* The query loop as a machine: points one after another, combinations by an *)
(* odometer, hard predicate, best soft count so far, duplicate filter.  For   *)
(* every small trace and query of the universe below its result is compared   *)
(* with the declarative meaning: the set of all type-correct assignments.     *)
(* The operators of Query (used for trace validation) must agree with both.   *)
(***************************************************************************)
EXTENDS Query, TLC

CONSTANTS MaxPoints, MaxVars, Small

V(n, t, x, b) == [n |-> n, t |-> t, f |-> IF t = 0 THEN 0 ELSE 3, size |-> 1, val |-> <<x>>,
                  has |-> b > 0, buf |-> IF b > 0 THEN <<b>> ELSE <<>>]
Vars == {V(0, 0, 0, 0), V(0, 0, 1, 0), V(1, 0, 1, 0), V(0, 1, 1, 2)}
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Points == {[stmt |-> <<s>>, sizes |-> <<>>, aux |-> <<s>>, vars |-> vs] :
             s \in {1, 2}, vs \in SeqsTo(Vars, MaxVars)}

val(i) == [k |-> "value", i |-> i]
one == [k |-> "u", v |-> <<1>>]
null == [k |-> "null"]
bin(op, a, b) == [k |-> op, c |-> <<a, b>>]
not(a) == [k |-> "not", c |-> <<a>>]
sz(i) == [k |-> "size", i |-> i]
dis == [k |-> "distinct", i |-> 0, j |-> 1]
Q0(vars, hard, soft) == [vars |-> vars, hard |-> hard, soft |-> soft, mask |-> <<0>>, stmt |-> <<0>>]
QM(vars, hard, soft, m, s) == [vars |-> vars, hard |-> hard, soft |-> soft, mask |-> <<m>>, stmt |-> <<s>>]
Queries ==
  {Q0(<<>>, null, <<>>), QM(<<>>, null, <<>>, 3, 1),
   Q0(<< <<0, 1>> >>, null, <<>>),
   QM(<< <<0>> >>, bin("=", val(0), one), <<>>, 1, 1),
   QM(<< <<0>> >>, null, <<bin("=", val(0), one)>>, 255, 3),
   Q0(<< <<0, 1>> >>, null, <<bin("=", val(0), one), bin(">=", sz(0), one)>>),
   Q0(<< <<0, 1>>, <<0>> >>, dis, <<>>),
   Q0(<< <<0>>, <<0, 1>> >>, not(bin("<", val(0), val(1))), <<dis>>),
   Q0(<< <<0>>, <<0>> >>, bin("<=", bin("+", val(0), one), bin("*", val(1), one)), <<>>),
   QM(<< <<0, 1>>, <<0, 1>> >>, null, <<dis, bin(">", val(0), val(1)), bin("=", val(1), one)>>, 2, 2)}
  \cup IF Small THEN {} ELSE
  {Q0(<< <<0, 1>>, <<0, 1>>, <<0>> >>, dis, <<bin("<", val(1), val(2))>>),
   Q0(<< <<0>>, <<1>>, <<0>> >>, null, <<>>),
   Q0(<< <<1>> >>, bin("<", sz(0), one), <<not(bin("=", val(0), one))>>),
   Q0(<< <<0, 1>>, <<0, 1>> >>, [k |-> "or", c |-> <<not(dis), bin("<", val(0), val(1))>>], <<dis>>),
   Q0(<< <<0, 1>> >>, [k |-> "and", c |-> <<>>], <<[k |-> "or", c |-> <<>>]>>)}

VARIABLES q, tr, keep, i, ix, best, cur, res, out, seen, st
vars == <<q, tr, keep, i, ix, best, cur, res, out, seen, st>>

Init == /\ q \in Queries /\ keep \in BOOLEAN
        /\ tr \in {[points |-> ps] : ps \in SeqsTo(Points, MaxPoints)}
        /\ i = 1 /\ ix = <<>> /\ best = 0 /\ cur = <<>> /\ res = <<>> /\ out = <<>> /\ seen = {}
        /\ st = "point"

pt == tr.points[i]
N == Len(q.vars)
Cand(k) == Matching(q.vars[k], pt)
\* the next point, if its statement is selected and there are candidates
Start == /\ st = "point" /\ i <= Len(tr.points)
         /\ cur' = <<>> /\ best' = 0 /\ UNCHANGED <<q, tr, keep, i, res, out, seen>>
         /\ IF ~Selected(q, pt) THEN st' = "skip" /\ ix' = <<>>
            ELSE IF \E k \in 1..N : Len(Cand(k)) = 0 THEN st' = "filter" /\ ix' = <<>>
            ELSE st' = "comb" /\ ix' = [k \in 1..N |-> 1]
Skip == /\ st = "skip" /\ st' = "point" /\ i' = i + 1
        /\ UNCHANGED <<q, tr, keep, ix, best, cur, res, out, seen>>
Binding == [k \in 1..N |-> pt.vars[Cand(k)[ix[k]]]]
SoftCount == Cardinality({s \in 1..Len(q.soft) : Holds(q.soft[s], Binding) = "T"})
\* odometer, the first wheel fastest
Wheel == {k \in 1..N : ix[k] < Len(Cand(k)) /\ \A j \in 1..(k - 1) : ix[j] = Len(Cand(j))}
Comb == /\ st = "comb"
        /\ LET ok == Holds(q.hard, Binding) = "T"
               c  == SoftCount
           IN  IF ~ok \/ (Len(cur) > 0 /\ c < best) THEN UNCHANGED <<cur, best>>
               ELSE IF Len(cur) > 0 /\ c = best THEN cur' = Append(cur, Binding) /\ UNCHANGED best
               ELSE cur' = <<Binding>> /\ best' = c
        /\ IF Wheel = {} THEN st' = "filter" /\ ix' = <<>>
           ELSE st' = "comb" /\
                LET w == CHOOSE w \in Wheel : TRUE
                IN  ix' = [k \in 1..N |-> IF k < w THEN 1 ELSE IF k = w THEN ix[k] + 1 ELSE ix[k]]
        /\ UNCHANGED <<q, tr, keep, i, res, out, seen>>
\* duplicates, one result after the other
Filter == /\ st = "filter"
          /\ IF cur = <<>>
             THEN /\ out' = Append(out, [pt |-> i, stmt |-> pt.stmt, aux |-> pt.aux, rs |-> res])
                  /\ res' = <<>> /\ i' = i + 1 /\ st' = "point" /\ UNCHANGED <<cur, seen>>
             ELSE LET k == Key(pt.stmt, cur[1]) IN
                  /\ cur' = Tail(cur)
                  /\ seen' = seen \cup {k}
                  /\ res' = IF keep \/ k \notin seen THEN Append(res, cur[1]) ELSE res
                  /\ UNCHANGED <<out, i, st>>
          /\ UNCHANGED <<q, tr, keep, ix, best>>
Next == Start \/ Skip \/ Comb \/ Filter
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == st = "point" /\ i = Len(tr.points) + 1
AllAssignments(p) == {a \in [1..N -> 1..Len(p.vars)] : \A k \in 1..N : Allowed(q.vars[k], p.vars[a[k]])}
At(p, a) == [k \in 1..N |-> p.vars[a[k]]]
True(pr, p, a) == Holds(pr, At(p, a)) = "T"
Good(p) == {a \in AllAssignments(p) : True(q.hard, p, a)}
Score(p, a) == Cardinality({s \in 1..Len(q.soft) : True(q.soft[s], p, a)})
Best(p) == {a \in Good(p) : \A b \in Good(p) : Score(p, b) <= Score(p, a)}

\* the machine agrees with the operators the validation uses
Agrees == Done => out = IF keep THEN Answer(q, tr) ELSE Dedup(Answer(q, tr))
\* C06, C08: the multiset of results of a point is the set of best assignments
Meaning == Done /\ keep =>
  /\ [k \in 1..Len(out) |-> out[k].pt] = EligibleSeq(q, tr)
  /\ \A k \in 1..Len(out) :
       LET p == tr.points[out[k].pt]
           S == IF q.soft = <<>> THEN Good(p) ELSE Best(p)
       IN  /\ Len(out[k].rs) = Cardinality(S)
           /\ \A a \in S : Cardinality({j \in 1..Len(out[k].rs) : out[k].rs[j] = At(p, a)})
                           = Cardinality({b \in S : At(p, b) = At(p, a)})
\* C08: soft predicates never empty the answer of a point
SoftKeeps == Done => \A k \in 1..Len(out) : keep => (out[k].rs = <<>> <=> Good(tr.points[out[k].pt]) = {})
\* C10: exactly one result per key, the first point that has it
Flat(o) == UNION {{<<k, j>> : j \in 1..Len(o[k].rs)} : k \in 1..Len(o)}
KeyAt(o, x) == Key(o[x[1]].stmt, o[x[1]].rs[x[2]])
Dups == Done /\ ~keep =>
  LET full == Answer(q, tr) IN
  /\ \A x, y \in Flat(out) : KeyAt(out, x) = KeyAt(out, y) => x = y
  /\ {KeyAt(out, x) : x \in Flat(out)} = {KeyAt(full, x) : x \in Flat(full)}
  /\ \A x \in Flat(out), y \in Flat(full) : KeyAt(out, x) = KeyAt(full, y) => out[x[1]].pt <= full[y[1]].pt
\* C11: the choice of one point is the answer of the trace which has only this point
Choice == Done => \A e \in Eligible(q, tr) :
  LET one1 == Answer(q, [points |-> <<tr.points[e]>>]) IN
  \E k \in 1..Len(Answer(q, tr)) : Answer(q, tr)[k].pt = e /\ Answer(q, tr)[k].rs = one1[1].rs
\* nothing undetermined here
Decided == Done => Determined(Answer(q, tr))
=============================================================================
