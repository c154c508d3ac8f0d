--------------------------- MODULE LabelCorrecting ---------------------------
(* Graph.fifo_label_correcting: a queue of nodes whose label became smaller;  *)
(* after a predecessor is replaced, the predecessors are followed to see if   *)
(* they closed a cycle.  Neighbors in any order.  C16                         *)
EXTENDS Instances
CONSTANTS Sizes, CostSet, Loops
VARIABLES I, pc, q, cur, todo, d, pred, cyc
vars == <<I, pc, q, cur, todo, d, pred, cyc>>
N == 1..I.n
A == I.E
S == 1
Nb(v) == {a[2] : a \in {b \in A : b[1] = v}}
Init == /\ \E n \in Sizes : \E E \in SUBSET AllPairs(n, "D", Loops) : \E c \in [E -> CostSet] :
             I = [n |-> n, E |-> E, c |-> c]
        /\ pc = "start" /\ q = <<1>> /\ cur = 0 /\ todo = {} /\ d = NoFn /\ pred = NoFn /\ cyc = <<>>
Begin == /\ pc = "start" /\ pc' = "run"
         /\ d' = [v \in N |-> IF v = S THEN 0 ELSE INF]
         /\ pred' = [v \in {S} |-> 0]
         /\ UNCHANGED <<I, q, cur, todo, cyc>>
Pop == /\ pc = "run" /\ todo = {} /\ q # <<>>
       /\ cur' = Head(q) /\ q' = Tail(q) /\ todo' = Nb(Head(q))
       /\ UNCHANGED <<I, pc, d, pred, cyc>>
\* nodes met when the predecessors of j are followed until one repeats
RECURSIVE Back(_, _, _)
Back(P, v, seen) == IF v = 0 THEN [hit |-> FALSE, seen |-> seen]
                    ELSE IF v \in {seen[x] : x \in DOMAIN seen} THEN [hit |-> TRUE, seen |-> seen]
                    ELSE Back(P, P[v], Append(seen, v))
RECURSIVE Around(_, _, _)
Around(P, j, c) == LET v == P[c[Len(c)]] IN IF v = j THEN Reverse(c) ELSE Around(P, j, Append(c, v))
Look == /\ pc = "run" /\ todo # {}
        /\ \E j \in todo :
             /\ todo' = todo \ {j}
             /\ IF d[j] = INF \/ d[j] > d[cur] + I.c[<<cur, j>>] THEN
                   LET P == [v \in DOMAIN pred \cup {j} |-> IF v = j THEN cur ELSE pred[v]] IN
                   /\ d' = [d EXCEPT ![j] = d[cur] + I.c[<<cur, j>>]]
                   /\ pred' = P
                   /\ IF j \in DOMAIN pred /\ Back(P, j, <<>>).hit
                      THEN pc' = "negative" /\ cyc' = Around(P, j, <<j>>) /\ UNCHANGED q
                      ELSE /\ q' = IF \E x \in DOMAIN q : q[x] = j THEN q ELSE Append(q, j)
                           /\ UNCHANGED <<pc, cyc>>
                ELSE UNCHANGED <<pc, q, d, pred, cyc>>
        /\ UNCHANGED <<I, cur>>
End == /\ pc = "run" /\ todo = {} /\ q = <<>> /\ pc' = "done"
       /\ UNCHANGED <<I, q, cur, todo, d, pred, cyc>>
Next == Begin \/ Pop \/ Look \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"done", "negative"})
-----------------------------------------------------------------------------
Neg == HasNegCycleFrom(N, A, I.c, S)
Tree == [v \in DOMAIN pred \ {S} |-> pred[v]]
\* the predecessors never close a cycle unnoticed
Forest == pc = "run" => pred[S] = 0 /\ TreeOn(A, S, Tree) /\ {v \in N : d[v] < INF} = DOMAIN pred
\* labels are lengths of walks, at least the length of the path in the tree
Labels == pc = "run" => \A v \in DOMAIN pred : /\ ~Neg => d[v] >= Dist(N, A, I.c, S)[v]
                                               /\ d[v] >= TreeCost(I.c, Tree, S, v)
Correct == /\ pc = "done" => /\ ~Neg /\ DOMAIN pred = Reach(A, S)
                             /\ d = Dist(N, A, I.c, S)
                             /\ \A v \in DOMAIN Tree : TreeCost(I.c, Tree, S, v) = d[v]
           /\ pc = "negative" => Neg /\ IsCycle(A, cyc) /\ Simple(cyc) /\ CycleCost(I.c, cyc) < 0
EmitInst == pc = "start" => Instance("D", I.n, I.E, I.c, NoFn, <<>>, "fifo", [src |-> 1])
=============================================================================
