------------------------------- MODULE MC_Ids -------------------------------
(* All words of a small width: packing and unpacking are inverse, different  *)
(* points get different identifiers, and the selection by mask and value      *)
(* that restricts a query to a file picks exactly the points of that file.    *)
EXTENDS Ids, FiniteSets
CONSTANTS FB, SB, Spare, WithFlag      \* WithFlag: the selection looks at the flag, too
N == FB + SB + Spare + 1
Word == [1..N -> {0, 1}]
File == {w \in Word : \A i \in 1..N : i > FB => w[i] = 0}
Ast  == {w \in Word : \A i \in 1..N : i > SB => w[i] = 0}
Ids  == [has : {TRUE}, file : File, ast : Ast]
          \cup [has : {FALSE}, file : {[i \in 1..N |-> 0]}, ast : {w \in Word : ~Flagged(w)}]
Mask == [i \in 1..N |-> IF (i > SB /\ i <= SB + FB) \/ (WithFlag /\ i = N) THEN 1 ELSE 0]
Want(f) == [i \in 1..N |-> IF i > SB /\ i <= SB + FB THEN f[i - SB] ELSE IF WithFlag /\ i = N THEN 1 ELSE 0]

VARIABLES id, w
Init == id \in Ids /\ w = Pack(id, FB, SB)
\* the point is written, and read again
Next == \E v \in Word : w' = v /\ id' = Unpack(v, FB, SB)
Spec == Init /\ [][Next]_<<id, w>>
Consistent == /\ Unpack(w, FB, SB) = id /\ Fits(id, FB, SB)
              /\ (Spare = 0 \/ ~Flagged(w) \/ \A i \in 1..N : (i > SB + FB /\ i < N) => w[i] = 0)
                    => Pack(id, FB, SB) = w
Restricted == \A f \in File : Chosen(w, Mask, Want(f)) <=> InFile(w, f, FB, SB)
=============================================================================
