---- MODULE TestWords ----
EXTENDS BigNum, TLC
ASSUME WNat(<<1,2,0,0>>) = 513
ASSUME WNat(<<255,255,255,0,0,0,0,0>>) = 16777215
ASSUME WNat(<<0,0,0,1>>) = 16777216 /\ WNat(<<255,255,255,255>>) = Big /\ WNat(<<0,0,0,0,0,0,0,1>>) = Big
ASSUME WSub(<<0,1>>,<<1,0>>) = <<255,0>>
ASSUME WLt(<<255,1>>,<<0,2>>)
ASSUME NMul(<<255,255>>,<<255,255>>) = <<1,0,254,255>>
ASSUME NPow2(9) = <<0,2>> /\ NPow(<<2>>,17) = NPow2(17)
ASSUME IFromS(<<255,255>>) = MkInt(TRUE,<<1>>) /\ IFromS(<<0,128>>) = MkInt(TRUE,<<0,128>>)
ASSUME \A a \in -20..20, b \in -20..20:
  LET I(n) == IF n<0 THEN MkInt(TRUE, NTrim(<<0-n>>)) ELSE MkInt(FALSE, NTrim(<<n>>)) IN
  /\ IAdd(I(a),I(b)) = I(a+b)
  /\ (a*b \in -255..255 => IMul(I(a),I(b)) = I(a*b))
  /\ ICmp(I(a),I(b)) = (IF a<b THEN -1 ELSE IF a>b THEN 1 ELSE 0)
====
