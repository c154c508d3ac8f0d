------------------------------- MODULE Simplex -------------------------------
(* Graph.network_simplex from a spanning tree solution: potentials from the   *)
(* tree, an entering arc that violates optimality, the leaving arc is the     *)
(* last blocking arc along the cycle, the entering arc itself coming last.    *)
(* The initial solution is any feasible flow whose free arcs form a forest,   *)
(* with any spanning tree that contains them; it is only required that the    *)
(* code reaches some such solution.  C14                                      *)
EXTENDS Instances
CONSTANTS Sizes, CapSet, CostSet, DemandSet, Pivots
VARIABLES I, pc, f, T, root, pivot
vars == <<I, pc, f, T, root, pivot>>
N == 1..I.n
A == I.E
Free(g) == {e \in A : 0 < g[e] /\ g[e] < I.u[e]}
Nets == {I0 \in UNION {UNION {[n : {n}, E : {E}, u : [E -> CapSet], c : [E -> CostSet], b : [1..n -> DemandSet]] :
                    E \in {F \in AntiparallelFreeSets(n) : Connected(1..n, F)}} : n \in Sizes} :
           SumOver(1..I0.n, LAMBDA v : I0.b[v]) = 0}
Init == /\ I \in Nets
        /\ pc = "start" /\ f = NoFn /\ T = {} /\ root = 1 /\ pivot \in Pivots
Flows == {g \in [A -> 0..Max({0} \cup {I.u[e] : e \in A})] : Satisfies(N, A, I.u, I.b, g)}
Trees(g) == {S \in SUBSET A : Free(g) \subseteq S /\ Cardinality(S) = I.n - 1 /\ Connected(N, S)}
Begin == /\ pc = "start"
         /\ \/ /\ pc' = "infeasible" /\ Flows = {} /\ UNCHANGED <<f, T, root>>
            \/ /\ pc' = "run"
               /\ \E g \in Flows : \E S \in Trees(g) : f' = g /\ T' = S
               /\ root' \in N
         /\ UNCHANGED <<I, pivot>>
RECURSIVE Way(_, _)          \* the path in the tree that extends p to t
Way(p, t) == IF p[Len(p)] = t THEN <<p>> ELSE
    LET nx == {a[2] : a \in {b \in Sym(T) : b[1] = p[Len(p)] /\ ~\E q \in DOMAIN p : p[q] = b[2]}} IN
    FlattenSeq(LET s == SetToSeq(nx) IN [q \in DOMAIN s |-> Way(Append(p, s[q]), t)])
TreeWay(v, w) == Way(<<v>>, w)[1]
ArcsOf(p) == [q \in 1..(Len(p) - 1) |-> <<p[q], p[q + 1]>>]
StepCost(a) == IF a \in A THEN -I.c[a] ELSE I.c[<<a[2], a[1]>>]
Potential(v) == LET s == ArcsOf(TreeWay(root, v)) IN FoldLeft(LAMBDA acc, a : acc + StepCost(a), 0, s)
PI == TLCEval([v \in N |-> Potential(v)])
Violation(pi, e) ==
    LET r == I.c[e] - pi[e[1]] + pi[e[2]] IN
    IF e \in T \/ I.u[e] = 0 THEN 0
    ELSE IF f[e] = 0 THEN (IF r < 0 THEN -r ELSE 0)
    ELSE IF f[e] = I.u[e] THEN (IF r > 0 THEN r ELSE 0) ELSE 0
Pivot ==
    /\ pc = "run"
    /\ LET pi == PI
           viol == TLCEval([e \in A |-> Violation(pi, e)])
           elig == {e \in A : viol[e] > 0}
           cand == IF pivot = "dantzig" THEN {e \in elig : \A x \in elig : viol[x] <= viol[e]} ELSE elig
       IN IF elig = {} THEN pc' = "done" /\ UNCHANGED <<f, T>>
          ELSE \E e \in cand :
             LET way == TreeWay(e[2], e[1])                    \* from the head of e to its tail
                 cyc0 == Append(ArcsOf(way), e)
                 \* an arc at its capacity enters backwards
                 cyc == IF f[e] = I.u[e] THEN Append(ArcsOf(Reverse(way)), <<e[2], e[1]>>) ELSE cyc0
                 inT == T \cup {e}
                 Room(a) == IF a \in inT THEN I.u[a] - f[a] ELSE f[<<a[2], a[1]>>]
                 m == Min({Room(cyc[q]) : q \in DOMAIN cyc})
                 last == Max({q \in DOMAIN cyc : Room(cyc[q]) = m})
                 out == IF cyc[last] \in inT THEN cyc[last] ELSE <<cyc[last][2], cyc[last][1]>>
                 on == {cyc[q] : q \in DOMAIN cyc}
             IN /\ f' = [a \in A |-> f[a] + (IF a \in on THEN m ELSE 0) - (IF <<a[2], a[1]>> \in on THEN m ELSE 0)]
                /\ T' = inT \ {out} /\ UNCHANGED pc
    /\ UNCHANGED <<I, root, pivot>>
Next == Begin \/ Pivot
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"done", "infeasible"})
-----------------------------------------------------------------------------
CostNow(g) == SumOver(A, LAMBDA e : g[e] * I.c[e])
TreeSolution == pc \in {"run", "done"} =>
    /\ Satisfies(N, A, I.u, I.b, f)
    /\ T \subseteq A /\ Cardinality(T) = I.n - 1 /\ Connected(N, T)
    /\ Free(f) \subseteq T
NoDearer == [][pc = "run" => CostNow(f') <= CostNow(f)]_vars
Correct == /\ pc = "done" => /\ NoNegativeResidualCycle(N, A, I.u, I.c, f)
                             /\ \A g \in Flows : CostNow(f) <= CostNow(g)
           /\ pc = "infeasible" => ~Satisfiable(N, A, I.u, I.b)
           /\ pc = "run" => Satisfiable(N, A, I.u, I.b)
EmitInst == pc = "start" => Instance("D", I.n, I.E, I.c, I.u, I.b, "mincost", [algo |-> "simplex"])
=============================================================================
