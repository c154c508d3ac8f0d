---------------------------- MODULE Certificates ----------------------------
(* The certificates of Graphs.tla, by which recorded results are judged,      *)
(* against brute force on all graphs of a small scope.                        *)
EXTENDS Instances
CONSTANTS Sizes, CostSet, CapSet, DemandSet, Part
VARIABLES I
N == 1..I.n
A == I.E
Init == \E n \in Sizes :
    \/ Part = "dist" /\ \E E \in SUBSET AllPairs(n, "D", TRUE) : \E c \in [E -> CostSet] : I = [n |-> n, E |-> E, c |-> c]
    \/ Part = "mst" /\ \E E \in SUBSET AllPairs(n, "U", n < 4) : \E c \in [E -> CostSet] : I = [n |-> n, E |-> E, c |-> c]
    \/ Part = "flow" /\ \E E \in AntiparallelFreeSets(n) : \E c \in [E -> CostSet], u \in [E -> CapSet], b \in [1..n -> DemandSet] :
          I = [n |-> n, E |-> E, c |-> c, u |-> u, b |-> b]
    \/ Part = "dfs" /\ \E E \in SUBSET AllPairs(n, "D", FALSE) : I = [n |-> n, E |-> E]
Next == UNCHANGED I
Spec == Init /\ [][Next]_I
RECURSIVE Simples(_, _)
Simples(B, p) == {p} \cup UNION {Simples(B, Append(p, a[2])) :
                      a \in {b \in B : b[1] = p[Len(p)] /\ ~\E q \in DOMAIN p : p[q] = b[2]}}
From(s) == Simples(A, <<s>>)
Cycles == {p \in UNION {From(s) : s \in N} : <<p[Len(p)], p[1]>> \in A}

ReachOK == Part = "dist" => \A s \in N : Reach(A, s) = {p[Len(p)] : p \in From(s)}
NegOK == Part = "dist" => HasNegCycle(N, A, I.c) = \E p \in Cycles : CycleCost(I.c, p) < 0
NegFromOK == Part = "dist" => \A s \in N : HasNegCycleFrom(N, A, I.c, s) =
                 \E p \in Cycles : p[1] \in Reach(A, s) /\ CycleCost(I.c, p) < 0
DistOK == Part = "dist" => (~HasNegCycle(N, A, I.c) => \A s, t \in N :
             Dist(N, A, I.c, s)[t] = Min({INF} \cup {PathCost(I.c, p) : p \in {q \in From(s) : q[Len(q)] = t}}))
HopsOK == Part = "dist" => \A s, t \in N :
             Hops(N, A, s)[t] = Min({INF} \cup {Len(p) - 1 : p \in {q \in From(s) : q[Len(q)] = t}})
AcyclicOK == Part = "dist" => Acyclic(A, N) = (Cycles = {})
HamOK == Part = "dist" => \A s \in N, t \in 0..I.n : HamPath(N, A, s, t) =
             \E p \in From(s) : Len(p) = I.n /\ (t = 0 \/ p[Len(p)] = t)

Forests == {T \in SUBSET A : SpanningForest(N, A, T)}
MstOK == Part = "mst" =>
    /\ Forests # {}
    /\ \A T \in Forests : MinimalForest(A, I.c, T) = \A S \in Forests : ForestCost(I.c, T) <= ForestCost(I.c, S)
    /\ (Connected(N, A) => Forests = {T \in SUBSET A : SpanningTree(N, T)})

AllF == [A -> 0..Max({0} \cup {I.u[e] : e \in A})]
STFlows == {f \in AllF : IsFlow(N, A, I.u, f, 1, 2)}
MaxFlowOK == (Part = "flow" /\ I.n >= 2) => \A f \in STFlows :
    NoAugmentingPath(A, I.u, f, 1, 2) = \A g \in STFlows : Net(A, g, 1) <= Net(A, f, 1)
BFlows == {f \in AllF : Satisfies(N, A, I.u, I.b, f)}
CostOf(f) == SumOver(A, LAMBDA e : f[e] * I.c[e])
SatisfiableOK == Part = "flow" => /\ Satisfiable(N, A, I.u, I.b) = (BFlows # {})
                                   /\ Routable(N, A, I.u, I.b) = (BFlows # {})
MinCostOK == Part = "flow" => \A f \in BFlows :
    NoNegativeResidualCycle(N, A, I.u, I.c, f) = \A g \in BFlows : CostOf(f) <= CostOf(g)

\* all depth-first searches from a node, as predecessor functions and numberings
RECURSIVE Dfs(_, _)
Dfs(s, stack) ==          \* s: [dt, ft, pr, k, m]
    IF stack = <<>> THEN {s}
    ELSE LET v == stack[Len(stack)]
             nx == {a[2] : a \in {b \in A : b[1] = v}} \ DOMAIN s.dt
         IN IF nx = {} THEN Dfs([s EXCEPT !.ft = [x \in DOMAIN s.ft \cup {v} |-> IF x = v THEN s.m ELSE s.ft[x]], !.m = @ + 1],
                                SubSeq(stack, 1, Len(stack) - 1))
            ELSE UNION {Dfs([s EXCEPT !.dt = [x \in DOMAIN s.dt \cup {w} |-> IF x = w THEN s.k ELSE s.dt[x]], !.k = @ + 1,
                                      !.pr = [x \in DOMAIN s.pr \cup {w} |-> IF x = w THEN v ELSE s.pr[x]]],
                            Append(stack, w)) : w \in nx}
Searches == Dfs([dt |-> [x \in {1} |-> 1], ft |-> NoFn, pr |-> NoFn, k |-> 2, m |-> 1], <<1>>)
R == Reach(A, 1)
DfsTreeOK == Part = "dfs" =>
    {P \in [R \ {1} -> R] : TreeOn(A, 1, P) /\ DepthFirstTree(A, 1, P)} = {s.pr : s \in Searches}
\* numberings of R: pairs of permutations
Perms(S) == {f \in [S -> 1..Cardinality(S)] : \A x, y \in S : f[x] = f[y] => x = y}
DfsNumOK == Part = "dfs" =>
    {q \in Perms(R) \X Perms(R) : q[1][1] = 1 /\ DepthFirstNumbering(R, A, q[1], q[2])
                                  /\ \A v \in R \ {1} : ParentOf(R, q[1], q[2], v) # 0}
    = {<<s.dt, s.ft>> : s \in Searches}
=============================================================================
