------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Definitions on finite graphs: what "reachable", "shortest", "minimum",  *)
(* "maximum flow" ... mean.  A digraph is a set N of nodes (integers) and  *)
(* a set A of arcs <<u,v>>; costs, capacities and flows are functions on   *)
(* arcs.  An undirected graph is a set of pairs <<a,b>> with a <= b; it is *)
(* walked along Sym of that set.                                           *)
(*                                                                         *)
(* Every definition used to judge the implementation is either direct or a *)
(* certificate; MC_Certificates.tla lets TLC compare each certificate with *)
(* the brute-force definition on all graphs of a small scope.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

INF == 1000000000          \* "no path"
NA  == -999999             \* attribute absent or None
BAD == -888888             \* a value the harness cannot express

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

Rev(A)  == {<<a[2], a[1]>> : a \in A}
Sym(A)  == A \cup Rev(A)
Norm(e) == IF e[1] <= e[2] THEN e ELSE <<e[2], e[1]>>
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

-----------------------------------------------------------------------------
(* Reachability, components                                                *)
RECURSIVE Close(_, _, _)
Close(A, S, F) ==
    IF F = {} THEN S
    ELSE LET nx == {a[2] : a \in {b \in A : b[1] \in F}} \ S
         IN  Close(A, S \cup nx, nx)
Reach(A, s) == Close(A, {s}, {s})

\* Is the relation R on the set S acyclic (no self loops either)?
RECURSIVE PeelSources(_, _)
PeelSources(R, S) ==
    LET Q == {x \in S : \A r \in R : ~(r[2] = x /\ r[1] \in S)}
    IN  IF S = {} THEN TRUE ELSE IF Q = {} THEN FALSE ELSE PeelSources(R, S \ Q)
Acyclic(R, S) == PeelSources(R, S)

Component(A, n)       == Reach(Sym(A), n)
StrongComponent(A, n) == {m \in Reach(A, n) : n \in Reach(A, m)}
Components(N, A)       == {Component(A, n) : n \in N}
StrongComponents(N, A) == {StrongComponent(A, n) : n \in N}
Connected(N, A) == Cardinality(Components(N, A)) <= 1

-----------------------------------------------------------------------------
(* Paths and cycles, as sequences of nodes                                 *)
IsPath(A, p, s, t) ==
    /\ Len(p) >= 1 /\ p[1] = s /\ p[Len(p)] = t
    /\ \A i \in 1..(Len(p) - 1) : <<p[i], p[i+1]>> \in A
Simple(p) == \A i, j \in 1..Len(p) : p[i] = p[j] => i = j
RECURSIVE PathCost(_, _)
PathCost(c, p) == IF Len(p) <= 1 THEN 0
                  ELSE c[<<p[1], p[2]>>] + PathCost(c, Tail(p))
IsCycle(A, p) ==             \* closed by the arc from the last to the first
    /\ Len(p) >= 1
    /\ \A i \in 1..Len(p) : <<p[i], p[IF i = Len(p) THEN 1 ELSE i + 1]>> \in A
CycleCost(c, p) == PathCost(c, p) + c[<<p[Len(p)], p[1]>>]

-----------------------------------------------------------------------------
(* Shortest distances: n rounds of relaxation                              *)
RelaxOnce(N, A, c, d) ==
    [v \in N |-> LET E == {a \in A : a[2] = v /\ d[a[1]] < INF}
                 IN  Min({d[v]} \cup {d[a[1]] + c[a] : a \in E})]
RECURSIVE Relax(_, _, _, _, _)
Relax(N, A, c, d, k) ==
    IF k = 0 THEN d
    ELSE LET e == RelaxOnce(N, A, c, d)
         IN  IF e = d THEN d ELSE Relax(N, A, c, e, k - 1)
Dist(N, A, c, s) ==
    Relax(N, A, c, [v \in N |-> IF v = s THEN 0 ELSE INF], Cardinality(N))
Hops(N, A, s) == Dist(N, A, [a \in A |-> 1], s)
HasNegCycle(N, A, c) ==
    LET d == Relax(N, A, c, [v \in N |-> 0], Cardinality(N))
    IN  RelaxOnce(N, A, c, d) # d
HasNegCycleFrom(N, A, c, s) ==
    LET R == Reach(A, s)
        B == {a \in A : a[1] \in R}
    IN  HasNegCycle(R, B, c)
NonNegative(A, c) == \A a \in A : c[a] >= 0

-----------------------------------------------------------------------------
(* Predecessor trees.  P is a function from nodes to their predecessors.   *)
RECURSIVE Leads(_, _, _, _)
Leads(P, s, v, k) == IF v = s THEN TRUE
                     ELSE IF k = 0 \/ v \notin DOMAIN P THEN FALSE
                     ELSE Leads(P, s, P[v], k - 1)
TreeOn(A, s, P) ==
    /\ s \notin DOMAIN P
    /\ \A v \in DOMAIN P : <<P[v], v>> \in A
    /\ \A v \in DOMAIN P : Leads(P, s, v, Cardinality(DOMAIN P))
\* only for trees (TreeOn)
RECURSIVE TreePath(_, _, _)
TreePath(P, s, v) == IF v = s THEN <<s>> ELSE Append(TreePath(P, s, P[v]), v)
RECURSIVE TreeCost(_, _, _, _)
TreeCost(c, P, s, v) == IF v = s THEN 0 ELSE TreeCost(c, P, s, P[v]) + c[<<P[v], v>>]
RECURSIVE Ancestors(_, _, _)
Ancestors(P, s, v) == IF v = s THEN {s} ELSE {v} \cup Ancestors(P, s, P[v])
Below(P, s, x) == {v \in DOMAIN P \cup {s} : x \in Ancestors(P, s, v)}

\* The tree P is a depth-first tree of its nodes: the children of every node
\* can be ordered so that arcs between the subtrees of two of them only lead
\* from a later to an earlier one.
DepthFirstTree(A, s, P) ==
    LET V   == DOMAIN P \cup {s}
        anc == [v \in V |-> Ancestors(P, s, v)]
    IN \A x \in V :
        LET ch == {v \in DOMAIN P : P[v] = x}
            R  == {r \in ch \X ch :
                     r[1] # r[2] /\ \E a \in A : /\ a[1] \in V /\ a[2] \in V
                                                 /\ r[1] \in anc[a[1]] /\ r[2] \in anc[a[2]]}
        IN Acyclic(R, ch)

-----------------------------------------------------------------------------
(* Minimum spanning trees, on normalised undirected edges                  *)
SpanningTree(V, T) == /\ \A e \in T : e[1] \in V /\ e[2] \in V /\ e[1] # e[2]
                      /\ Cardinality(T) = Cardinality(V) - 1
                      /\ Cardinality(Components(V, T)) = 1
\* cycle property: the ends of every edge are joined by tree edges that are
\* not more expensive
MinimalForest(E, c, T) ==
    \A e \in E : e[2] \in Reach(Sym({t \in T : c[t] <= c[e]}), e[1])
SpanningForest(N, E, T) ==
    /\ T \subseteq E
    /\ Components(N, T) = Components(N, E)
    /\ Cardinality(T) = Cardinality(N) - Cardinality(Components(N, E))
ForestCost(c, T) == SumOver(T, LAMBDA t : c[t])

-----------------------------------------------------------------------------
(* Flows.  No arc occurs in both directions, no self loops.                *)
OutFlow(A, f, v) == SumOver({a \in A : a[1] = v}, LAMBDA a : f[a])
InFlow(A, f, v)  == SumOver({a \in A : a[2] = v}, LAMBDA a : f[a])
Net(A, f, v)     == OutFlow(A, f, v) - InFlow(A, f, v)
WithinBounds(A, u, f) == \A a \in A : 0 <= f[a] /\ f[a] <= u[a]
Residual(A, u, f) == {a \in A : f[a] < u[a]} \cup Rev({a \in A : f[a] > 0})
ResidualCost(A, c) == [a \in Sym(A) |-> IF a \in A THEN c[a] ELSE -c[<<a[2], a[1]>>]]
ResidualCap(A, u, f) == [a \in Sym(A) |-> IF a \in A THEN u[a] - f[a] ELSE f[<<a[2], a[1]>>]]
IsFlow(N, A, u, f, s, t) == /\ WithinBounds(A, u, f)
                            /\ \A v \in N \ {s, t} : Net(A, f, v) = 0
\* certificate of maximality: no augmenting path
NoAugmentingPath(A, u, f, s, t) == t \notin Reach(Residual(A, u, f), s)
Satisfies(N, A, u, b, f) == /\ WithinBounds(A, u, f)
                            /\ \A v \in N : Net(A, f, v) = b[v]
\* a flow that satisfies the demands exists (Gale, Hoffman)
Satisfiable(N, A, u, b) ==
    /\ SumOver(N, LAMBDA v : b[v]) = 0
    /\ \A S \in SUBSET N : SumOver(S, LAMBDA v : b[v])
                           <= SumOver({a \in A : a[1] \in S /\ a[2] \notin S}, LAMBDA a : u[a])
\* the same for larger networks, by sending what is left along shortest ways
RECURSIVE Layers(_, _, _)
Layers(A, seen, F) == IF F = {} THEN <<>>
                      ELSE LET nx == {a[2] : a \in {x \in A : x[1] \in F}} \ seen
                           IN <<F>> \o Layers(A, seen \cup nx, nx)
RECURSIVE BackFrom(_, _, _, _)
BackFrom(A, L, k, v) == IF k = 1 THEN <<v>>
                        ELSE Append(BackFrom(A, L, k - 1, CHOOSE w \in L[k - 1] : <<w, v>> \in A), v)
RECURSIVE SendRest(_, _, _, _, _)
SendRest(N, A, u, b, f) ==
    LET rest == [v \in N |-> b[v] - Net(A, f, v)]
        S == {v \in N : rest[v] > 0}
        R == Residual(A, u, f)
        L == Layers(R, S, S)
        ks == {k \in DOMAIN L : \E v \in L[k] : rest[v] < 0}
    IN IF S = {} THEN TRUE
       ELSE IF ks = {} THEN FALSE
       ELSE LET k == Min(ks)
                p == BackFrom(R, L, k, CHOOSE v \in L[k] : rest[v] < 0)
                on == {<<p[i], p[i + 1]>> : i \in 1..(k - 1)}
                r == ResidualCap(A, u, f)
                m == Min({rest[p[1]], -rest[p[k]]} \cup {r[a] : a \in on})
            IN SendRest(N, A, u, b, TLCEval([a \in A |-> f[a] + (IF a \in on THEN m ELSE 0)
                                               - (IF <<a[2], a[1]>> \in on THEN m ELSE 0)]))
Routable(N, A, u, b) == SumOver(N, LAMBDA v : b[v]) = 0 /\ SendRest(N, A, u, b, [a \in A |-> 0])
\* certificate of minimum cost: no negative cycle in the residual graph
NoNegativeResidualCycle(N, A, u, c, f) ==
    ~HasNegCycle(N, Residual(A, u, f), ResidualCost(A, c))
AntiparallelFree(A) == \A a \in A : a[1] # a[2] /\ <<a[2], a[1]>> \notin A

-----------------------------------------------------------------------------
(* Depth-first numbering.  D is the set of discovered nodes, dt and ft     *)
(* their discovery and finish times.                                       *)
Encloses(dt, ft, u, v) == dt[u] <= dt[v] /\ ft[v] <= ft[u]
ParentOf(D, dt, ft, v) ==           \* the latest discovered enclosing node
    LET B == {u \in D \ {v} : Encloses(dt, ft, u, v)}
    IN  IF B = {} THEN 0 ELSE CHOOSE u \in B : \A w \in B : dt[w] <= dt[u]
\* A the arcs walked
DepthFirstNumbering(D, A, dt, ft) ==
    \* no arc leads from a node to one discovered and finished later
    /\ \A a \in A : (a[1] \in D /\ a[2] \in D) => ~(dt[a[1]] < dt[a[2]] /\ ft[a[1]] < ft[a[2]])
    \* a discovered node that is enclosed by others hangs on an arc
    /\ \A v \in D : LET p == ParentOf(D, dt, ft, v) IN p # 0 => <<p, v>> \in A
    \* the enclosing nodes are a chain: everything around v is around its parent
    /\ \A v \in D : LET p == ParentOf(D, dt, ft, v) IN
          p # 0 => \A u \in D \ {v} : Encloses(dt, ft, u, v) => Encloses(dt, ft, u, p)

-----------------------------------------------------------------------------
(* Hamiltonian paths                                                       *)
RECURSIVE HamExt(_, _, _, _)
HamExt(A, left, v, dest) ==
    IF left = {} THEN dest = 0 \/ v = dest
    ELSE \E w \in left : <<v, w>> \in A /\ HamExt(A, left \ {w}, w, dest)
HamPath(N, A, s, dest) == HamExt(A, N \ {s}, s, dest)       \* dest = 0: any
\* the same, by the sets of nodes that simple paths of one length visit, and where they end (for bigger graphs)
RECURSIVE HamLayer(_, _, _)
HamLayer(A, L, k) ==
    IF k = 0 THEN L
    ELSE HamLayer(A, UNION {{<<x[1] \cup {a[2]}, a[2]>> : a \in {b \in A : b[1] = x[2] /\ b[2] \notin x[1]}} : x \in L}, k - 1)
HamEnds(N, A, s) == {x[2] : x \in HamLayer(A, {<<{s}, s>>}, Cardinality(N) - 1)}
HamPathTo(N, A, s, dest) == IF dest = 0 THEN HamEnds(N, A, s) # {} ELSE dest \in HamEnds(N, A, s)

=============================================================================
