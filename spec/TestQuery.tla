---- MODULE TestQuery ----
EXTENDS Query, TLC
U(n) == [k |-> "u", v |-> NatW(n, 8)]
F(w) == [k |-> "f", v |-> w]
B(op,a,b) == [k |-> op, c |-> <<a,b>>]
S(w) == [k |-> "s", v |-> w]
M1 == S(Ones(8))
ASSUME Holds(B(">", U(1), M1), <<>>) = "T"
ASSUME Holds(B(">", [k|->"u", v|-> Ones(8)], U(5)), <<>>) = "T"
ASSUME Holds(B("=", B("+",[k|->"u", v|-> Ones(8)], U(1)), U(0)), <<>>) = "F"
\* 0.5
Half == F(<<0,0,0,0,0,0,224,63>>)
ASSUME Holds(B("=", B("+", Half, Half), U(1)), <<>>) = "T"
ASSUME Holds(B("<", Half, U(1)), <<>>) = "T"
ASSUME Holds(B("=", B("/", U(1), U(3)), B("/", U(1), U(3))), <<>>) = "U"
ASSUME Holds(B("<", B("/", U(1), U(3)), Half), <<>>) = "T"
ASSUME Holds(B("=", B("/", U(1), U(0)), U(0)), <<>>) = "F"
ASSUME Tuples(<< <<1,2>>, <<3,4,5>> >>, 2) = << <<1,3>>,<<2,3>>,<<1,4>>,<<2,4>>,<<1,5>>,<<2,5>> >>
ASSUME Tuples(<< <<1,2>>, <<>> >>, 2) = << >>
ASSUME PrintT(Num(Half, <<>>))
====
