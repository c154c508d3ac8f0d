------------------------------- MODULE Kruskal -------------------------------
(* Graph.minimum_spanning_tree_kruskal on top of a disjoint set; edges of the *)
(* same cost come in any order.  C07                                          *)
EXTENDS Instances
CONSTANTS Sizes, CostSet, Loops
VARIABLES I, pc, left, part, T
vars == <<I, pc, left, part, T>>
N == 1..I.n
Init == /\ \E n \in Sizes : \E E \in SUBSET AllPairs(n, "U", Loops) : \E c \in [E -> CostSet] :
             I = [n |-> n, E |-> E, c |-> c]
        /\ pc = "start" /\ left = {} /\ part = {} /\ T = {}
Begin == /\ pc = "start" /\ pc' = "scan" /\ left' = I.E /\ part' = {{v} : v \in N} /\ UNCHANGED <<I, T>>
Of(v) == CHOOSE P \in part : v \in P
Take == /\ pc = "scan" /\ left # {} /\ Cardinality(T) < I.n - 1
        /\ \E e \in left :
             /\ \A f \in left : I.c[e] <= I.c[f]
             /\ left' = left \ {e}
             /\ IF Of(e[1]) = Of(e[2]) THEN UNCHANGED <<part, T>>
                ELSE /\ part' = (part \ {Of(e[1]), Of(e[2])}) \cup {Of(e[1]) \cup Of(e[2])}
                     /\ T' = T \cup {e}
        /\ UNCHANGED <<I, pc>>
End == /\ pc = "scan" /\ (left = {} \/ Cardinality(T) = I.n - 1) /\ pc' = "done" /\ UNCHANGED <<I, left, part, T>>
Next == Begin \/ Take \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
Parts == pc # "start" => part = Components(N, T)
Safe == MinimalForest({e \in I.E \ left : TRUE}, I.c, T) \/ pc = "start"
Correct == pc = "done" => SpanningForest(N, I.E, T) /\ MinimalForest(I.E, I.c, T)
EmitInst == pc = "start" => Instance("U", I.n, I.E, I.c, NoFn, <<>>, "kruskal", [ds |-> 0])
=============================================================================
