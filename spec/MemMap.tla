------------------------------- MODULE MemMap -------------------------------
(***************************************************************************)
(* The live allocations of a trace: a partial function from start address   *)
(* to size, both words.  Memory events update it, pointer variables are     *)
(* looked up in it.                                                         *)
(***************************************************************************)
EXTENDS Words, TLC

Empty == [x \in {} |-> <<>>]

\* A memory event: size # 0 creates or resizes the allocation at addr, size = 0
\* removes it.  The all-ones address is reserved: events there have no effect.
Update(mm, addr, size) ==
  IF addr = Ones(Len(addr)) THEN mm
  ELSE IF size = Zero(Len(size)) THEN [x \in (DOMAIN mm) \ {addr} |-> mm[x]]
  ELSE (addr :> size) @@ mm

None == [has |-> FALSE, buf |-> <<>>]

\* The allocation with the greatest start address not above p decides.
Floor(mm, p) == {a \in DOMAIN mm : WLe(a, p) /\ \A b \in DOMAIN mm : WLe(b, p) => WLe(b, a)}

Lookup(mm, p) ==
  LET below == {a \in DOMAIN mm : WLe(a, p)} IN
  IF p = Ones(Len(p)) \/ below = {} THEN None
  ELSE LET a   == CHOOSE x \in below : \A y \in below : WLe(y, x)
           off == WSub(p, a)
       IN  IF WLe(off, mm[a]) THEN [has |-> TRUE, buf |-> WSub(mm[a], off)] ELSE None
=============================================================================
