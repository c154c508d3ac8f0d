-------------------------------- MODULE Exprs --------------------------------
(* Expressions: <<"n", integer>> or <<operator, left, right>>.  Values are     *)
(* rationals <<numerator, denominator>> in lowest terms.  C21                  *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Ops == {"+", "-", "*", "/"}
IsNum(e) == e[1] = "n"
RECURSIVE GCD(_, _)
Abs(x) == IF x < 0 THEN -x ELSE x
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % b)
Low(p, q) == LET g == GCD(Abs(p), Abs(q))
                 s == IF q < 0 THEN -1 ELSE 1
             IN <<(s * p) \div g, (s * q) \div g>>
Undef == <<0, 0>>
Apply(o, a, b) ==
    IF a = Undef \/ b = Undef THEN Undef
    ELSE CASE o = "+" -> Low(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
           [] o = "-" -> Low(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
           [] o = "*" -> Low(a[1] * b[1], a[2] * b[2])
           [] o = "/" -> IF b[1] = 0 THEN Undef ELSE Low(a[1] * b[2], a[2] * b[1])
RECURSIVE Value(_)
Value(e) == IF IsNum(e) THEN <<e[2], 1>> ELSE Apply(e[1], Value(e[2]), Value(e[3]))
RECURSIVE Infix(_)
Infix(e) == IF IsNum(e) THEN <<ToString(e[2])>> ELSE <<"(">> \o Infix(e[2]) \o <<e[1]>> \o Infix(e[3]) \o <<")">>
=============================================================================
