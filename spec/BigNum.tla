------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Unbounded integers and rationals over base-256 magnitudes.               *)
(*   Natural  : little-endian byte sequence without trailing (high) zeros   *)
(*   Integer  : [neg |-> BOOLEAN, mag |-> Natural]   (zero is not negative) *)
(*   Rational : [num |-> Integer, den |-> Natural]   (den # 0, not reduced) *)
(***************************************************************************)
EXTENDS Words, Integers, TLC

RECURSIVE NTrimTo(_, _)
NTrimTo(s, n) == IF n = 0 THEN <<>> ELSE IF s[n] # 0 THEN SubSeq(s, 1, n) ELSE NTrimTo(s, n - 1)
NTrim(s) == NTrimTo(s, Len(s))

NDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN 0 - 1 ELSE IF a[i] > b[i] THEN 1
                   ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE NCmpAt(a, b, Len(a))

\* carry propagation over a sequence of column sums
RECURSIVE NCarryTo(_, _, _, _)
NCarryTo(cols, i, n, c) ==
  IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o NCarryTo(cols, i, n, c \div 256))
  ELSE LET s == cols[i] + c IN <<s % 256>> \o NCarryTo(cols, i + 1, n, s \div 256)
\* (TLCEval: the columns are computed once)
NCarry(cols, i, c) == LET v == TLCEval(cols) IN NCarryTo(v, i, Len(v), c)

NAdd(a, b) == NTrim(NCarry([i \in 1..Max2(Len(a), Len(b)) |-> NDigit(a, i) + NDigit(b, i)], 1, 0))

RECURSIVE NBorrow(_, _, _, _)
NBorrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - NDigit(b, i) - c
       IN IF d < 0 THEN <<d + 256>> \o NBorrow(a, b, i + 1, 1) ELSE <<d>> \o NBorrow(a, b, i + 1, 0)
NSub(a, b) == NTrim(NBorrow(a, b, 1, 0))          \* a >= b

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
NZeros(n) == SubSeq([i \in 1..n |-> 0], 1, n)
\* 2^k as a Natural
NPow2(k) == Append(NZeros(k \div 8), Pow2(k % 8))
\* a natural which is a power of two, and its logarithm
IsPow2(a) == /\ a # <<>>
             /\ a[Len(a)] \in {1, 2, 4, 8, 16, 32, 64, 128}
             /\ \A i \in 1..(Len(a) - 1) : a[i] = 0
Log2(a) == 8 * (Len(a) - 1) + (CHOOSE j \in 0..7 : Pow2(j) = a[Len(a)])
\* a * 2^k
NShl(a, k) == NZeros(k \div 8) \o NTrim(NCarry([i \in 1..Len(a) |-> a[i] * Pow2(k % 8)], 1, 0))

RECURSIVE NCol(_, _, _, _, _)
NCol(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + NCol(a, b, k, i + 1, hi)
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF IsPow2(a) THEN NShl(b, Log2(a))
  ELSE IF IsPow2(b) THEN NShl(a, Log2(b))
  ELSE NTrim(NCarry([k \in 1..(Len(a) + Len(b) - 1) |->
                       NCol(a, b, k, Max2(1, k + 1 - Len(b)), Min2(k, Len(a)))], 1, 0))

\* number of trailing zero bits of a positive natural
NTz(a) == LET i == CHOOSE x \in 1..Len(a) : a[x] # 0 /\ \A y \in 1..(x - 1) : a[y] = 0
              j == CHOOSE x \in 0..7 : a[i] % Pow2(x) = 0 /\ (x = 7 \/ a[i] % Pow2(x + 1) # 0)
          IN  8 * (i - 1) + j
\* a div 2^k
NShr(a, k) ==
  LET b == k \div 8
      d == Pow2(k % 8)
  IN  IF b >= Len(a) THEN <<>>
      ELSE NTrim([i \in 1..(Len(a) - b) |-> (a[i + b] \div d) + (NDigit(a, i + b + 1) % d) * (256 \div d)])
RECURSIVE NPow(_, _)
NPow(b, k) == IF k = 0 THEN <<1>>
              ELSE LET h == NPow(b, k \div 2) IN
                   IF k % 2 = 0 THEN NMul(h, h) ELSE NMul(b, NMul(h, h))

-----------------------------------------------------------------------------
Int0 == [neg |-> FALSE, mag |-> <<>>]
MkInt(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
IFromU(w) == MkInt(FALSE, NTrim(w))
\* two's complement word
IFromS(w) == IF w[Len(w)] >= 128
             THEN MkInt(TRUE, NTrim(WAdd([i \in 1..Len(w) |-> 255 - w[i]], NatW(1, Len(w)))))
             ELSE IFromU(w)
INeg(x) == MkInt(~x.neg, x.mag)
IAdd(x, y) == IF x.neg = y.neg THEN MkInt(x.neg, NAdd(x.mag, y.mag))
              ELSE IF NCmp(x.mag, y.mag) >= 0 THEN MkInt(x.neg, NSub(x.mag, y.mag))
              ELSE MkInt(y.neg, NSub(y.mag, x.mag))
IMul(x, y) == MkInt(x.neg # y.neg, NMul(x.mag, y.mag))
ISign(x) == IF x.mag = <<>> THEN 0 ELSE IF x.neg THEN 0 - 1 ELSE 1
ICmp(x, y) == ISign(IAdd(x, INeg(y)))

-----------------------------------------------------------------------------
RInt(x) == [num |-> x, den |-> <<1>>]
RAdd(p, q) == [num |-> IAdd(IMul(p.num, MkInt(FALSE, q.den)), IMul(q.num, MkInt(FALSE, p.den))),
               den |-> NMul(p.den, q.den)]
RNeg(p) == [num |-> INeg(p.num), den |-> p.den]
RMul(p, q) == [num |-> IMul(p.num, q.num), den |-> NMul(p.den, q.den)]
RDiv(p, q) == [num |-> MkInt(p.num.neg # q.num.neg, NMul(p.num.mag, q.den)),
               den |-> NMul(p.den, q.num.mag)]                              \* q # 0
RSign(p) == ISign(p.num)
RCmp(p, q) == RSign(RAdd(p, RNeg(q)))
=============================================================================
