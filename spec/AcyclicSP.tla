------------------------------ MODULE AcyclicSP ------------------------------
(* Graph.acyclic_shortest_path: relax the arcs out of the nodes in the order  *)
(* given by a depth-first search, stop at the destination.  The order is any  *)
(* topological order of the reachable nodes that starts at the source.  C17   *)
EXTENDS Instances
CONSTANTS Sizes, CostSet, Dests
VARIABLES I, pc, left, d, pred
vars == <<I, pc, left, d, pred>>
N == 1..I.n
A == I.E
S == 1
R == Reach(A, S)
Init == /\ \E n \in Sizes, t \in Dests : \E E \in {F \in SUBSET AllPairs(n, "D", FALSE) : Acyclic(F, 1..n)} :
             \E c \in [E -> CostSet] : t <= n /\ I = [n |-> n, E |-> E, c |-> c, t |-> t]
        /\ pc = "start" /\ left = {} /\ d = NoFn /\ pred = NoFn
Begin == /\ pc = "start" /\ pc' = "run" /\ left' = R /\ d' = [v \in {S} |-> 0] /\ pred' = NoFn /\ UNCHANGED I
\* next in topological order: no arc from another node left
Ready(m) == \A a \in A : a[2] = m => a[1] \notin left
Scan == /\ pc = "run"
        /\ \E m \in left : /\ Ready(m) /\ left' = left \ {m}
             /\ IF m = I.t THEN pc' = "found" /\ UNCHANGED <<d, pred>>
                ELSE LET out == {a[2] : a \in {b \in A : b[1] = m}}
                         est(v) == d[m] + I.c[<<m, v>>]
                         better == {v \in out : v \notin DOMAIN d \/ d[v] > est(v)}
                     IN /\ d' = [v \in DOMAIN d \cup better |-> IF v \in better THEN est(v) ELSE d[v]]
                        /\ pred' = [v \in DOMAIN pred \cup better |-> IF v \in better THEN m ELSE pred[v]]
                        /\ UNCHANGED pc
        /\ UNCHANGED I
End == pc = "run" /\ left = {} /\ pc' = "done" /\ UNCHANGED <<I, left, d, pred>>
Next == Begin \/ Scan \/ End
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
E0 == Dist(N, A, I.c, S)
\* nodes taken from the order have their final label
Settled == pc = "run" => \A v \in R \ left : v \in DOMAIN d /\ d[v] = E0[v]
Correct == /\ pc = "done" => /\ I.t \notin R /\ TreeOn(A, S, pred) /\ DOMAIN pred = R \ {S}
                             /\ \A v \in DOMAIN pred : TreeCost(I.c, pred, S, v) = E0[v]
           /\ pc = "found" => LET p == TreePath(pred, S, I.t) IN
                IsPath(A, p, S, I.t) /\ PathCost(I.c, p) = E0[I.t]
EmitInst == pc = "start" => Instance("D", I.n, I.E, I.c, NoFn, <<>>, "acyclic", [src |-> 1, dst |-> I.t])
=============================================================================
