------------------------------- MODULE Augment -------------------------------
(* Graph.max_flow: search the residual graph for the sink, augment along the  *)
(* path found, until there is none.  The search explores in any order, which  *)
(* covers both rules.  Flow left by an earlier run is forgotten first.  C11   *)
EXTENDS Instances
CONSTANTS Sizes, CapSet, Leftover
VARIABLES I, pc, f, front, pred
vars == <<I, pc, f, front, pred>>
N == 1..I.n
A == I.E
Set(g, x, v) == [y \in DOMAIN g \cup {x} |-> IF y = x THEN v ELSE g[y]]
Init == /\ \E n \in Sizes : \E E \in AntiparallelFreeSets(n) : \E u \in [E -> CapSet] :
             /\ I = [n |-> n, E |-> E, u |-> u, s |-> 1, t |-> 2]
             /\ f = [e \in E |-> Leftover]
        /\ pc = "start" /\ front = {} /\ pred = NoFn
Begin == /\ pc = "start" /\ pc' = "search" /\ f' = [e \in A |-> 0]
         /\ front' = {I.s} /\ pred' = Set(NoFn, I.s, 0) /\ UNCHANGED I
Room(a) == IF a \in A THEN I.u[a] - f[a] ELSE f[<<a[2], a[1]>>]
Explore == /\ pc = "search" /\ front # {}
           /\ \E v \in front :
                IF v = I.t THEN pc' = "augment" /\ UNCHANGED <<front, pred>>
                ELSE LET new == {a[2] : a \in {b \in Sym(A) : b[1] = v /\ Room(b) > 0 /\ b[2] \notin DOMAIN pred}}
                     IN /\ front' = (front \ {v}) \cup new
                        /\ pred' = [x \in DOMAIN pred \cup new |-> IF x \in new THEN v ELSE pred[x]]
                        /\ UNCHANGED pc
           /\ UNCHANGED <<I, f>>
PathTo(v) == TreePath([x \in DOMAIN pred \ {I.s} |-> pred[x]], I.s, v)
PathArcs == LET p == PathTo(I.t) IN {<<p[i], p[i + 1]>> : i \in 1..(Len(p) - 1)}
Push == /\ pc = "augment"
        /\ LET P == PathArcs
               m == Min({Room(a) : a \in P}) IN
           f' = [e \in A |-> IF e \in P THEN f[e] + m ELSE IF <<e[2], e[1]>> \in P THEN f[e] - m ELSE f[e]]
        /\ front' = {I.s} /\ pred' = Set(NoFn, I.s, 0) /\ pc' = "search" /\ UNCHANGED I
End == pc = "search" /\ front = {} /\ pc' = "done" /\ UNCHANGED <<I, f, front, pred>>
Next == Begin \/ Explore \/ Push \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
FlowAlways == pc # "start" => IsFlow(N, A, I.u, f, I.s, I.t)
\* maximum: by certificate, and by comparison with the smallest cut
CutValue(S) == SumOver({a \in A : a[1] \in S /\ a[2] \notin S}, LAMBDA a : I.u[a])
MinCut == Min({CutValue(S) : S \in {T \in SUBSET N : I.s \in T /\ I.t \notin T}})
Correct == pc = "done" =>
    /\ NoAugmentingPath(A, I.u, f, I.s, I.t)
    /\ Net(A, f, I.s) = MinCut /\ Net(A, f, I.t) = -MinCut
Increases == [][(pc = "augment") => Net(A, f', I.s) > Net(A, f, I.s)]_vars
EmitInst == pc = "start" => Instance("D", I.n, I.E, NoFn, I.u, <<>>, "maxflow", [s |-> 1, t |-> 2])
=============================================================================
