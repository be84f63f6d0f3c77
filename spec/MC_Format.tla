------------------------------ MODULE MC_Format ------------------------------
(***************************************************************************)
(* The reader as a state machine over a stream whose bytes arrive one at a  *)
(* time and which may end anywhere.  With one-byte words every input over   *)
(* a small alphabet up to MaxLen is explored.                               *)
(***************************************************************************)
EXTENDS Format

CONSTANTS Alphabet, MaxLen, MaxPoints,
          Prefix      \* a fixed beginning of the input

NoPrefix == <<>>
\* one name; an unsigned, a pointer, a signed and two blob types
Header == <<2, 1, 0,  5,  0, 0, 1,  0, 3, 1,  0, 1, 1,  0, 4, 0,  0, 4, 2>>

VARIABLES bytes,    \* what has arrived so far
          eof,      \* the stream has ended
          max,      \* the reader's point limit
          rd        \* the reader
vars == <<bytes, eof, max, rd>>

Init == bytes = Prefix /\ eof = FALSE /\ max \in 0..MaxPoints /\ rd = Reader0

Waiting == Step(bytes, eof, max, rd) = rd
Arrive == /\ ~eof /\ ~Done(rd) /\ Waiting /\ Len(bytes) < Len(Prefix) + MaxLen
          /\ \E b \in Alphabet : bytes' = Append(bytes, b)
          /\ UNCHANGED <<eof, max, rd>>
End == ~eof /\ ~Done(rd) /\ Waiting /\ eof' = TRUE /\ UNCHANGED <<bytes, max, rd>>
Read == /\ ~Done(rd) /\ ~Waiting
        /\ rd' = Step(bytes, eof, max, rd) /\ UNCHANGED <<bytes, eof, max>>
Next == Arrive \/ End \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

-----------------------------------------------------------------------------
\* C03: the reader never stops in the middle: at the end of the input it decides
Settles == eof /\ ~Done(rd) => ~Waiting
Termination == [](eof => <>Done(rd))
\* C01: the outcome does not depend on how the bytes arrived
ChunkIndependent == Done(rd) /\ (eof \/ rd.st = "bad") =>
   LET d == Decode(bytes, max) IN d.ok = (rd.st = "ok") /\ (d.ok => d.tr = TraceOf(rd))
\* C03: every prefix is rejected or yields exactly a prefix of the points, and
\* the cut table is exact
CutsSound == Done(rd) /\ eof /\ max = 0 =>
   LET full == TraceOf(rd)
       cuts == Cuts(bytes) IN
   \A k \in 0..Len(bytes) :
      LET d == Decode(SubSeq(bytes, 1, k), 0) IN
      /\ d.ok <=> \E c \in cuts : c[1] = k
      /\ d.ok => /\ IsPrefix(d.tr.points, full.points)
                 /\ d.tr.names = full.names /\ d.tr.types = full.types
                 /\ <<k, Len(d.tr.points)>> \in cuts
\* C03: only complete points are ever visible
WholePoints == \A i \in 1..Len(rd.points) : \E k \in 1..rd.pos : bytes[k] = TEnd
Monotone == [][IsPrefix(rd.points, rd'.points) /\ IsPrefix(rd.types, rd'.types)]_vars
\* C04: a limit keeps the first points
Limit == rd.st = "ok" /\ eof =>
   LET d0 == Decode(bytes, 0)
       m  == IF max = 0 THEN Len(bytes) ELSE max IN
   /\ Len(rd.points) <= m
   /\ d0.ok => rd.points = SubSeq(d0.tr.points, 1, IF m < Len(d0.tr.points) THEN m ELSE Len(d0.tr.points))
   /\ max # 0 /\ Len(rd.points) = max =>
        \A t \in Alphabet : Decode(Append(SubSeq(bytes, 1, rd.pos), t), max).tr = TraceOf(rd)
\* C02: writing and reading back, for points in canonical entry order
Canonical(p) == \A i \in 1..Len(p.vars) : ~p.vars[i].has
RoundTrip == rd.st = "ok" /\ (\A i \in 1..Len(rd.points) : Canonical(rd.points[i]))
             /\ (\A i \in 1..Len(rd.points) : rd.points[i].sizes = <<>>) =>
   LET t == TraceOf(rd) IN Decode(Encode(t), 0) = [ok |-> TRUE, tr |-> t]
\* C05: only pointers have buffer sizes
OnlyPointers == \A i \in 1..Len(rd.points) : \A j \in 1..Len(rd.points[i].vars) :
   rd.points[i].vars[j].has => rd.points[i].vars[j].f = FPointer
=============================================================================
