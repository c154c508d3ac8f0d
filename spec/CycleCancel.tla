----------------------------- MODULE CycleCancel -----------------------------
(* Graph.find_feasible_flow and cycle_canceling with create_residual_graph,   *)
(* find_cycle_capacity and augment_cycle.                                     *)
(* Phase 1: an auxiliary source and sink are added, a maximum flow is sent    *)
(* (Augment.tla), the problem is feasible if all auxiliary arcs are           *)
(* saturated, and the auxiliary nodes are removed again.                      *)
(* Phase 2: any simple negative cycle of the residual graph is cancelled.     *)
(* C13, C28, C29                                                              *)
EXTENDS Instances
CONSTANTS Sizes, CapSet, CostSet, DemandSet
VARIABLES I, pc, f, V, was
vars == <<I, pc, f, V, was>>
N == 1..I.n
A == I.E
SS == 100
TT == 101
Init == /\ \E n \in Sizes : \E E \in {F \in AntiparallelFreeSets(n) : Connected(1..n, F)} :
           \E u \in [E -> CapSet], c \in [E -> CostSet], b \in [1..n -> DemandSet] :
             I = [n |-> n, E |-> E, u |-> u, c |-> c, b |-> b]
        /\ pc = "start" /\ f = NoFn /\ V = 1..I.n /\ was = NoFn
\* auxiliary network
XA == A \cup {<<SS, v>> : v \in {w \in N : I.b[w] > 0}} \cup {<<v, TT>> : v \in {w \in N : I.b[w] < 0}}
XU == TLCEval([e \in XA |-> IF e[1] = SS THEN I.b[e[2]] ELSE IF e[2] = TT THEN -I.b[e[1]] ELSE I.u[e]])
AddAux == /\ pc = "start" /\ pc' = "maxflow" /\ V' = N \cup {SS, TT}
          /\ f' = [e \in XA |-> 0] /\ UNCHANGED <<I, was>>
\* one augmentation along some path of the residual graph (any simple one)
RECURSIVE Paths(_, _, _)
Paths(R, p, t) == IF p[Len(p)] = t THEN {p}
                  ELSE UNION {Paths(R, Append(p, a[2]), t) :
                              a \in {b \in R : b[1] = p[Len(p)] /\ ~\E q \in DOMAIN p : p[q] = b[2]}}
ArcsOf(p) == [q \in 1..(Len(p) - 1) |-> <<p[q], p[q + 1]>>]
RoomOn(u, g, p) == LET R == ResidualCap(DOMAIN u, u, g) IN Min({R[ArcsOf(p)[q]] : q \in DOMAIN ArcsOf(p)})
Send(g, p, m) == LET on == {ArcsOf(p)[q] : q \in DOMAIN ArcsOf(p)} IN
    [e \in DOMAIN g |-> g[e] + (IF e \in on THEN m ELSE 0) - (IF <<e[2], e[1]>> \in on THEN m ELSE 0)]
AugmentPath == /\ pc = "maxflow"
           /\ \E p \in Paths(Residual(XA, XU, f), <<SS>>, TT) : f' = Send(f, p, RoomOn(XU, f, p))
           /\ UNCHANGED <<I, pc, V, was>>
DropAux == /\ pc = "maxflow" /\ NoAugmentingPath(XA, XU, f, SS, TT)
           /\ V' = N /\ f' = [e \in A |-> f[e]]
           /\ pc' = IF \A e \in XA \ A : f[e] = XU[e] THEN "cancel" ELSE "infeasible"
           /\ UNCHANGED <<I, was>>
\* residual graph
R == Residual(A, I.u, f)
RK == ResidualCost(A, I.c)
NegCycles == {Append(p, p[1]) : p \in {q \in UNION {UNION {Paths(R, <<s>>, t) : t \in N} : s \in N} :
                 Len(q) > 1 /\ <<q[Len(q)], q[1]>> \in R /\ CycleCost(RK, q) < 0}}
Cancel == /\ pc = "cancel"
          /\ \E p \in NegCycles : f' = Send(f, p, RoomOn(I.u, f, p))
          /\ was' = f /\ UNCHANGED <<I, pc, V>>
Stop == /\ pc = "cancel" /\ NegCycles = {} /\ pc' = "done" /\ UNCHANGED <<I, f, V, was>>
Next == AddAux \/ AugmentPath \/ DropAux \/ Cancel \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"done", "infeasible"})
-----------------------------------------------------------------------------
CostNow(g) == SumOver(A, LAMBDA e : g[e] * I.c[e])
AuxGone == pc \in {"start", "cancel", "done", "infeasible"} => V = N /\ (f = NoFn \/ DOMAIN f = A)
FlowInv == /\ pc = "maxflow" => IsFlow(V, XA, XU, f, SS, TT)
           /\ pc \in {"cancel", "done"} => Satisfies(N, A, I.u, I.b, f)
Cheaper == [][pc = "cancel" /\ pc' = "cancel" => CostNow(f') < CostNow(f)]_vars
\* all integral flows that satisfy the demands
AllFlows == {g \in [A -> 0..Max({0} \cup {I.u[e] : e \in A})] : Satisfies(N, A, I.u, I.b, g)}
Correct == /\ pc = "done" => /\ NoNegativeResidualCycle(N, A, I.u, I.c, f)
                             /\ \A g \in AllFlows : CostNow(f) <= CostNow(g)
           /\ pc = "infeasible" => AllFlows = {}
           /\ pc \in {"cancel", "infeasible"} => (pc = "cancel") = Satisfiable(N, A, I.u, I.b)
EmitInst == pc = "start" => Instance("D", I.n, I.E, I.c, I.u, I.b, "mincost", [algo |-> "cycle_canceling"])
=============================================================================
