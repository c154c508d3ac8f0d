------------------------------- MODULE Preflow -------------------------------
(* Graph.max_flow_preflowpush: exact distance labels from a search of the     *)
(* reversed graph, saturated source arcs, then push and relabel in any order  *)
(* until no node other than source and sink has excess.  The order is free,   *)
(* which covers the three rules; the code serves one node at a time and       *)
(* relabels it only when no push from it was possible.  C12                   *)
EXTENDS Instances
CONSTANTS Sizes, CapSet
VARIABLES I, pc, f, x, d
vars == <<I, pc, f, x, d>>
N == 1..I.n
A == I.E
Init == /\ \E n \in Sizes : \E E \in AntiparallelFreeSets(n) : \E u \in [E -> CapSet] :
             /\ I = [n |-> n, E |-> E, u |-> u, s |-> 1, t |-> 2]
             /\ f = [e \in E |-> 0]
        /\ pc = "start" /\ x = [v \in 1..3 |-> 0] /\ d = NoFn
Begin == /\ pc = "start" /\ pc' = "run"
         /\ LET h == Hops(N, Rev(A), I.t) IN
            d' = [v \in N |-> IF v = I.s THEN I.n ELSE IF h[v] = INF THEN 2 * I.n + 1 ELSE h[v]]
         /\ f' = [e \in A |-> IF e[1] = I.s THEN I.u[e] ELSE 0]
         /\ x' = [v \in N |-> IF <<I.s, v>> \in A THEN I.u[<<I.s, v>>]
                              ELSE IF v = I.s THEN -SumOver({e \in A : e[1] = I.s}, LAMBDA e : I.u[e]) ELSE 0]
         /\ UNCHANGED I
Room(a) == IF a \in A THEN I.u[a] - f[a] ELSE f[<<a[2], a[1]>>]
ResOut(v) == {a \in Sym(A) : a[1] = v /\ Room(a) > 0}
Active(v) == v \notin {I.s, I.t} /\ x[v] > 0
Admissible(v) == {a \in ResOut(v) : d[a[1]] = d[a[2]] + 1}
Push == /\ pc = "run"
        /\ \E v \in N : Active(v) /\ \E a \in Admissible(v) :
             LET m == MinOf(x[v], Room(a)) IN
             /\ f' = [e \in A |-> IF e = a THEN f[e] + m ELSE IF <<e[2], e[1]>> = a THEN f[e] - m ELSE f[e]]
             /\ x' = [x EXCEPT ![v] = @ - m, ![a[2]] = @ + m]
        /\ UNCHANGED <<I, pc, d>>
Relabel == /\ pc = "run"
           /\ \E v \in N : /\ Active(v) /\ Admissible(v) = {}
                           /\ d' = [d EXCEPT ![v] = 1 + Min({2 * I.n + 1} \cup {d[a[2]] : a \in ResOut(v)})]
           /\ UNCHANGED <<I, pc, f, x>>
End == /\ pc = "run" /\ \A v \in N : ~Active(v)
       /\ pc' = "done" /\ UNCHANGED <<I, f, x, d>>
Next == Begin \/ Push \/ Relabel \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
Preflow == pc # "start" => /\ WithinBounds(A, I.u, f)
                           /\ \A v \in N : x[v] = -Net(A, f, v)
                           /\ \A v \in N \ {I.s} : x[v] >= 0
\* labels are valid where it matters: no residual arc is steep from a node that can reach the sink
Valid == pc # "start" => \A a \in Sym(A) : Room(a) > 0 => (d[a[1]] <= d[a[2]] + 1 \/ d[a[1]] >= I.n)
\* labels never decrease, except for the label that stands for "cannot reach the sink"
Monotone == [][pc = "run" => \A v \in N : d'[v] >= d[v] \/ d[v] > 2 * I.n]_vars
CutValue(S) == SumOver({a \in A : a[1] \in S /\ a[2] \notin S}, LAMBDA a : I.u[a])
MinCut == Min({CutValue(S) : S \in {T \in SUBSET N : I.s \in T /\ I.t \notin T}})
Correct == pc = "done" =>
    /\ IsFlow(N, A, I.u, f, I.s, I.t)
    /\ NoAugmentingPath(A, I.u, f, I.s, I.t)
    /\ Net(A, f, I.s) = MinCut
EmitInst == pc = "start" => Instance("D", I.n, I.E, NoFn, I.u, <<>>, "maxflow", [s |-> 1, t |-> 2])
=============================================================================
