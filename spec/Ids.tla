-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Trace identifiers of projects.  One word says which file and which       *)
(* statement of it a point belongs to: sb bits of statement, above them fb  *)
(* bits of file, and the top bit as a flag that there is a file at all.     *)
(* Words are sequences of bits here, the lowest first; b2 of a word given   *)
(* as bytes.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

B2(bytes) == [i \in 1..(8 * Len(bytes)) |-> (bytes[((i - 1) \div 8) + 1] \div (2 ^ ((i - 1) % 8))) % 2]

\* an identifier: [has, file, ast] of bit sequences; without a file the whole
\* word is the statement
Flagged(w) == w[Len(w)] = 1
Bits(w, from, n) == [i \in 1..Len(w) |-> IF i <= n THEN w[from + i] ELSE 0]
Unpack(w, fb, sb) ==
  IF Flagged(w) THEN [has |-> TRUE, file |-> Bits(w, sb, fb), ast |-> Bits(w, 0, sb)]
  ELSE [has |-> FALSE, file |-> [i \in 1..Len(w) |-> 0], ast |-> w]
Pack(id, fb, sb) ==
  IF ~id.has THEN id.ast
  ELSE [i \in 1..Len(id.ast) |-> IF i = Len(id.ast) THEN 1
                                 ELSE IF i <= sb THEN id.ast[i]
                                 ELSE IF i <= sb + fb THEN id.file[i - sb] ELSE 0]
\* what can be packed
Fits(id, fb, sb) ==
  IF id.has THEN /\ \A i \in 1..Len(id.file) : i > fb => id.file[i] = 0
                 /\ \A i \in 1..Len(id.ast) : i > sb => id.ast[i] = 0
  ELSE ~Flagged(id.ast)
InFile(w, f, fb, sb) == LET u == Unpack(w, fb, sb) IN u.has /\ u.file = f

\* the selection by which a query is restricted to a file
Chosen(w, mask, want) == [i \in 1..Len(w) |-> w[i] * mask[i]] = want
=============================================================================
