------------------------------ MODULE DotQuote -------------------------------
(* Every string over a small alphabet, and every such string after a keyword, *)
(* survives quoting and reading.  C22                                         *)
EXTENDS Dot, Json
CONSTANTS Alphabet, MaxLen
VARIABLES s, n
Seeds == {<<>>, <<78, 111, 100, 101>>, <<103, 114, 97, 112, 104>>, <<83, 84, 82, 73, 67, 84>>, <<101, 100, 103, 101>>,
          <<100, 105, 103, 114, 97, 112, 104>>, <<115, 117, 98, 103, 114, 97, 112, 104>>}
Init == s \in Seeds /\ n = IF s = <<>> THEN 0 ELSE MaxLen - 1
Next == n < MaxLen /\ n' = n + 1 /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_<<s, n>>
One(x) == ~x.bad /\ Len(x.o) = 1 /\ x.o[1].k = "id" /\ x.o[1].v = s
Correct == One(Lex(Quote(s)))
\* quotes are left out only where DOT allows it
Allowed == ~NeedsQuotes(s) => LET x == Lex(s) IN One(x) /\ x.o[1].q = "plain"
EmitInst == PrintT("I|" \o ToJson(s))
=============================================================================
