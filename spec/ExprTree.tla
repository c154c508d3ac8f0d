------------------------------- MODULE ExprTree ------------------------------
(* Evaluating an expression tree bottom up the way postordereval does (with   *)
(* an explicit stack of calls), and reading what printexp prints back.  C21   *)
EXTENDS Exprs, Json
CONSTANTS Leaves, Depth
VARIABLES e, stack, val
vars == <<e, stack, val>>
RECURSIVE All(_)
All(d) == IF d = 0 THEN {<<"n", i>> : i \in Leaves}
          ELSE LET S == All(d - 1) IN S \cup {<<o, a, b>> : o \in Ops, a \in S, b \in S}
\* a frame: <<expression, results so far>>
Init == e \in All(Depth) /\ Value(e) # Undef /\ stack = <<<<e, <<>>>>>> /\ val = Undef
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Return(v) == IF Below = <<>> THEN stack' = <<>> /\ val' = v
             ELSE stack' = [Below EXCEPT ![Len(Below)] = <<@[1], Append(@[2], v)>>] /\ UNCHANGED val
Step == /\ stack # <<>> /\ UNCHANGED e
        /\ LET x == Top[1]
               k == Len(Top[2])
           IN IF IsNum(x) THEN Return(<<x[2], 1>>)
              ELSE IF k < 2 THEN stack' = Append(stack, <<x[2 + k], <<>>>>) /\ UNCHANGED val
              ELSE Return(Apply(x[1], Top[2][1], Top[2][2]))
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
-----------------------------------------------------------------------------
Terminates == <>(stack = <<>>)
Correct == stack = <<>> => val = Value(e)
\* an operator precedence free reader: what is printed determines the expression
RECURSIVE Read(_, _)
Num(s) == CHOOSE i \in Leaves : ToString(i) = s
Read(s, i) ==           \* -> <<expression, next position>>
    IF s[i] # "(" THEN <<<<"n", Num(s[i])>>, i + 1>>
    ELSE LET a == Read(s, i + 1)
             b == Read(s, a[2] + 1)
         IN <<<<s[a[2]], a[1], b[1]>>, b[2] + 1>>
Readable == stack = <<>> => LET s == Infix(e) IN Read(s, 1) = <<e, Len(s) + 1>>
EmitInst == stack = <<>> => PrintT("I|" \o ToJson(e))
=============================================================================
