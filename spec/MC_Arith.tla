------------------------------ MODULE MC_Arith ------------------------------
(***************************************************************************)
(* The big numbers of the specification against the integers of TLC, and the *)
(* laws of predicate evaluation, for every pair from a window of values.      *)
(***************************************************************************)
EXTENDS Query, TLC

CONSTANTS Window, Offsets
VARIABLES a, b
vars == <<a, b>>
Vals == UNION {{o + d, 0 - (o + d)} : o \in Offsets, d \in 0..Window}
Init == a \in Vals /\ b = 0
Next == b = 0 /\ b' \in Vals \ {0} /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Digits(n \div 256)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
B(x) == MkInt(x < 0, Digits(Abs(x)))
Sgn(x) == IF x < 0 THEN 0 - 1 ELSE IF x > 0 THEN 1 ELSE 0

Adds == IAdd(B(a), B(b)) = B(a + b) /\ IAdd(B(a), INeg(B(b))) = B(a - b)
Muls == Abs(a) < 40000 /\ Abs(b) < 40000 => IMul(B(a), B(b)) = B(a * b)
Cmps == ICmp(B(a), B(b)) = Sgn(a - b)
Shift == a > 0 => LET k == Abs(b) % 20 IN NShr(Digits(a), k) = Digits(a \div (Pow2(k)))
Words8 == LET w == NatW(Abs(a), 8)
              n == WSub(Zero(8), w)
          IN  /\ IFromU(w) = B(Abs(a)) /\ IFromS(w) = B(Abs(a)) /\ IFromS(n) = B(0 - Abs(a))
              /\ WLt(w, NatW(Abs(b), 8)) = (Abs(a) < Abs(b))
              /\ WAdd(w, NatW(Abs(b), 8)) = NatW(Abs(a) + Abs(b), 8)
Tiny == Abs(a) < 40000 /\ Abs(b) < 40000
\* rationals: a/b compared with c/d, cross multiplication in TLC's integers
R(x, y) == RDiv(RInt(B(x)), RInt(B(y)))
Rats == Tiny /\ b # 0 =>
  \A c \in {1, 3, 0 - 7}, d \in {1, 2, 0 - 5} :
     /\ RCmp(R(a, b), R(c, d)) = Sgn((a * d - c * b) * Sgn(b) * Sgn(d))
     /\ RCmp(RMul(R(a, b), R(b, 1)), R(a, 1)) = 0
     /\ RCmp(RAdd(R(a, b), R(c, d)), R(c, d)) = Sgn(a) * Sgn(b)
\* the laws of the evaluation
K(x) == IF x >= 0 THEN [k |-> "u", v |-> NatW(x, 8)] ELSE [k |-> "s", v |-> WSub(Zero(8), NatW(0 - x, 8))]
bin(op, x, y) == [k |-> op, c |-> <<x, y>>]
H(p) == Holds(p, <<>>)
Undefined == bin("/", K(a), K(0))
Laws ==
  /\ H(bin("<", K(a), K(b))) = Tri(a < b) /\ H(bin("<=", K(a), K(b))) = Tri(a <= b)
  /\ H(bin(">", K(a), K(b))) = Tri(a > b) /\ H(bin(">=", K(a), K(b))) = Tri(a >= b)
  /\ H(bin("=", K(a), K(b))) = Tri(a = b)
  /\ H([k |-> "not", c |-> <<bin("=", K(a), K(b))>>]) = Tri(a # b)
  /\ H(bin("=", bin("-", bin("+", K(a), K(b)), K(b)), K(a))) = "T"
  /\ (b # 0 => H(bin("<", bin("/", K(a), K(b)), K(0))) = Tri(a * Sgn(b) < 0))
  /\ \A op \in Comparisons : H(bin(op, Undefined, K(b))) = "F" /\ H(bin(op, K(b), Undefined)) = "F"
\* exact IEEE values of whole numbers: mantissa and exponent of a
Msb(n) == CHOOSE m \in 0..30 : Pow2(m) <= n /\ (m = 30 \/ n < Pow2(m + 1))
Dbl(x) == \* bytes of the double x (0 < x < 2^30)
  LET m == Msb(x)
      e == 1023 + m
      f == NMul(Digits(x - Pow2(m)), NPow2(52 - m))
  IN  [i \in 1..8 |-> IF i <= 6 THEN NDigit(f, i)
                      ELSE IF i = 7 THEN NDigit(f, 7) + 16 * (e % 16) ELSE e \div 16]
Flt(x) == \* the float x (0 < x < 2^24)
  LET m == Msb(x)
      e == 127 + m
      f == NMul(Digits(x - Pow2(m)), NPow2(23 - m))
  IN  <<NDigit(f, 1), NDigit(f, 2), NDigit(f, 3) + 128 * (e % 2), e \div 2>>
Floats == /\ a > 0 => LET d == Float8(Dbl(a)) IN d.k = "rat" /\ d.q = "exact" /\ RCmp(d.r, RInt(B(a))) = 0
          /\ a > 0 /\ a < Pow2(24) => LET d == Float4(Flt(a)) IN d.q = "exact" /\ RCmp(d.r, RInt(B(a))) = 0
          /\ a > 0 => RCmp(Float8([Dbl(a) EXCEPT ![8] = @ + 128]).r, RInt(B(0 - a))) = 0
=============================================================================
