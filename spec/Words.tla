------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width unsigned machine words as little-endian byte sequences.     *)
(* TLC integers are 32 bit, the trace format is full of 64-bit words, so    *)
(* every wide quantity of the specification is a sequence of bytes.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise

Byte == 0..255

Zero(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 255]

\* a < b, a = b as unsigned numbers (equal lengths)
RECURSIVE WLtAt(_, _, _)
WLtAt(a, b, i) == IF i = 0 THEN FALSE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i]
                  ELSE WLtAt(a, b, i - 1)
WLt(a, b) == WLtAt(a, b, Len(a))
WLe(a, b) == ~WLt(b, a)

\* a - b modulo 256^n
RECURSIVE WSubAt(_, _, _, _)
WSubAt(a, b, i, borrow) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - b[i] - borrow
       IN  IF d < 0 THEN <<d + 256>> \o WSubAt(a, b, i + 1, 1)
                    ELSE <<d>> \o WSubAt(a, b, i + 1, 0)
WSub(a, b) == WSubAt(a, b, 1, 0)

\* a + b modulo 256^n
RECURSIVE WAddAt(_, _, _, _)
WAddAt(a, b, i, carry) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + carry
       IN  <<s % 256>> \o WAddAt(a, b, i + 1, s \div 256)
WAdd(a, b) == WAddAt(a, b, 1, 0)

WAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]

\* the first n bytes of w, the upper ones cleared (truncation and zero extension)
ZeroExt(bytes, n) == [i \in 1..n |-> IF i <= Len(bytes) THEN bytes[i] ELSE 0]

\* two's complement sign extension to n bytes
SignExt(bytes, n) ==
  [i \in 1..n |-> IF i <= Len(bytes) THEN bytes[i]
                  ELSE IF Len(bytes) > 0 /\ bytes[Len(bytes)] >= 128 THEN 255 ELSE 0]

\* Naturals: the value of a word if it is below 2^31 - 1, otherwise Big.
Big == 2147483647
WNat(w) == IF (\E i \in 5..Len(w) : w[i] # 0) \/ (Len(w) >= 4 /\ w[4] >= 128) THEN Big
           ELSE   (IF Len(w) >= 1 THEN w[1] ELSE 0)
                + (IF Len(w) >= 2 THEN 256 * w[2] ELSE 0)
                + (IF Len(w) >= 3 THEN 65536 * w[3] ELSE 0)
                + (IF Len(w) >= 4 THEN 16777216 * w[4] ELSE 0)

\* the number k < 2^31 as a word of n bytes
NatW(k, n) == [i \in 1..n |-> CASE i = 1 -> k % 256
                                [] i = 2 -> (k \div 256) % 256
                                [] i = 3 -> (k \div 65536) % 256
                                [] i = 4 -> k \div 16777216
                                [] OTHER -> 0]
=============================================================================
