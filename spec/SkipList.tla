------------------------------ MODULE SkipList ------------------------------
(***************************************************************************)
(* The structure behind the memory map: a skip list whose nodes get random   *)
(* heights, kept in step with MemMap (the meaning of the memory events).     *)
(* One action per operation of the class; the loops are recursive operators  *)
(* that follow the same links.                                               *)
(***************************************************************************)
EXTENDS MemMap, Integers, FiniteSets, Json

CONSTANTS Keys,      \* start addresses
          Sizes,     \* non-zero sizes
          MaxH,      \* greatest height of a node
          Probes,    \* looked-up addresses
          Emitting   \* print the transitions (for replay in the implementation)

Nil == 255          \* the head's key is the greatest word: the sentinel

VARIABLES height,    \* number of levels in use
          next,      \* links: node -> level -> node
          val        \* sizes of the live nodes
vars == <<height, next, val>>

Live == DOMAIN val
Abs == [w \in {<<k>> : k \in Live} |-> <<val[w[1]]>>]     \* the map represented

Init == /\ height = 1 /\ val = [x \in {} |-> 0]
        /\ next = (Nil :> [i \in 1..MaxH |-> Nil])

\* the last node at level i and above whose successor is not below k
RECURSIVE Before(_, _, _)
Before(cur, i, k) == IF next[cur][i] < k THEN Before(next[cur][i], i, k) ELSE cur
\* predecessors at all levels, from the top
RECURSIVE Path(_, _, _)
Path(cur, i, k) == IF i = 0 THEN [x \in {} |-> 0]
                   ELSE LET c == Before(cur, i, k) IN (i :> c) @@ Path(c, i - 1, k)
\* floor of k; Nil if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(cur, i, k) == IF i = 0 THEN cur
                       ELSE IF next[cur][i] <= k THEN FindFrom(next[cur][i], i, k)
                       ELSE FindFrom(cur, i - 1, k)
Find(k) == IF k = Nil THEN Nil ELSE FindFrom(Nil, height, k)

Compute(p) == LET n == Find(p) IN
              IF n = Nil THEN None
              ELSE IF p - n <= val[n] THEN [has |-> TRUE, buf |-> <<val[n] - (p - n)>>] ELSE None

Set(k, s, level) ==
  IF Find(k) = k
  THEN /\ val' = [val EXCEPT ![k] = s] /\ UNCHANGED <<height, next>>
  ELSE LET lv == IF level > height THEN height + 1 ELSE level
           h  == IF level > height THEN height + 1 ELSE height
           up == Path(Nil, h, k)
       IN  /\ height' = h /\ val' = (k :> s) @@ val
           /\ next' = (k :> [i \in 1..lv |-> next[up[i]][i]]) @@
                      [n \in DOMAIN next |->
                         [i \in DOMAIN next[n] |-> IF i <= lv /\ up[i] = n THEN k ELSE next[n][i]]]

Remove(k) ==
  LET up  == Path(Nil, height, k)
      cur == next[up[1]][1]
      \* unlink upwards until a level does not contain the node
      top == CHOOSE t \in 0..height :
               /\ \A i \in 1..t : next[up[i]][i] = cur
               /\ t = height \/ next[up[t + 1]][t + 1] # cur
      nx  == [n \in (DOMAIN next) \ {cur} |->
                [i \in DOMAIN next[n] |-> IF i <= top /\ up[i] = n THEN next[cur][i] ELSE next[n][i]]]
      ht  == CHOOSE h \in 1..height :
               /\ \A i \in (h + 1)..height : nx[Nil][i] = Nil
               /\ h = 1 \/ nx[Nil][h] # Nil
  IN  IF cur # k THEN UNCHANGED vars
      ELSE /\ next' = nx /\ height' = ht
           /\ val' = [x \in Live \ {k} |-> val[x]]

State(h, v, n) == <<h, {<<k, v[k], Cardinality(DOMAIN n[k])>> : k \in DOMAIN v}>>
Emit(op) == Emitting => PrintT("EDGE " \o ToJson(<<State(height, val, next), op, State(height', val', next')>>))

\* a new node draws a height; an existing one does not
Levels(k) == IF k \in Live THEN {0} ELSE 1..MaxH
Next == \/ \E k \in Keys, s \in Sizes : \E lv \in Levels(k) :
             /\ Set(k, s, lv)
             /\ Assert(Abs' = Update(Abs, <<k>>, <<s>>), "Set")
             /\ Emit(<<"set", k, s, lv>>)
        \/ \E k \in Keys :
             /\ Remove(k)
             /\ Assert(Abs' = Update(Abs, <<k>>, <<0>>), "Remove")
             /\ Emit(<<"remove", k>>)
Spec == Init /\ [][Next]_vars

\* every level is the ascending list of the nodes that reach it
RECURSIVE Walk(_, _)
Walk(n, i) == IF n = Nil THEN <<>> ELSE <<n>> \o Walk(next[n][i], i)
Ordered == \A i \in 1..height :
  LET w == Walk(next[Nil][i], i) IN
  /\ \A j \in 1..(Len(w) - 1) : w[j] < w[j + 1]
  /\ {w[j] : j \in 1..Len(w)} = {k \in Live : i \in DOMAIN next[k]}
HeightOK == /\ height >= 1 /\ \A i \in (height + 1)..MaxH : next[Nil][i] = Nil
            /\ height > 1 => next[Nil][height] # Nil
            /\ \A k \in Live : Cardinality(DOMAIN next[k]) <= height
\* C05: looking up agrees with the abstract map
LookupOK == \A p \in Probes : Compute(p) = Lookup(Abs, <<p>>)
=============================================================================
