---------------------------- MODULE FloydWarshall ----------------------------
(* Graph.floyd_warshall, _get_path, _get_cycle.  One step is one row: the     *)
(* paths from i are tried through k, in place.  The scan stops as soon as a   *)
(* node lies on a negative cycle.  All labelled graphs are inputs, so the     *)
(* fixed order of the nodes is no restriction.  C15                           *)
EXTENDS Instances
CONSTANTS Sizes, CostSet, Loops
VARIABLES I, pc, k, i, d, nx
vars == <<I, pc, k, i, d, nx>>
N == 1..I.n
A == I.E
Init == /\ \E n \in Sizes : \E E \in SUBSET AllPairs(n, "D", Loops) : \E c \in [E -> CostSet] :
             I = [n |-> n, E |-> E, c |-> c]
        /\ pc = "start" /\ k = 1 /\ i = 1 /\ d = NoFn /\ nx = NoFn
D0 == TLCEval([p \in N \X N |-> IF p \in A /\ (p[1] # p[2] \/ I.c[p] < 0) THEN I.c[p]
                                ELSE IF p[1] = p[2] THEN 0 ELSE INF])
Begin == /\ pc = "start"
         /\ d' = D0
         /\ nx' = TLCEval([p \in N \X N |-> IF D0[p] = INF \/ (p[1] = p[2] /\ D0[p] >= 0) THEN 0 ELSE p[1]])
         /\ pc' = IF \E v \in N : D0[<<v, v>>] < 0 THEN "negative" ELSE IF I.n = 0 THEN "valid" ELSE "run"
         /\ UNCHANGED <<I, k, i>>
\* one relaxation of the pair <<i, j>> through k
Relax1(s, j) ==
    IF s.d[<<i, k>>] = INF \/ s.d[<<k, j>>] = INF THEN s
    ELSE LET w == s.d[<<i, k>>] + s.d[<<k, j>>] IN
         IF s.d[<<i, j>>] > w
         THEN [d |-> [s.d EXCEPT ![<<i, j>>] = w], nx |-> [s.nx EXCEPT ![<<i, j>>] = s.nx[<<k, j>>]]]
         ELSE s
Row == /\ pc = "run"
       /\ LET s == FoldLeft(Relax1, [d |-> d, nx |-> nx], [j \in 1..I.n |-> j]) IN
          /\ d' = s.d /\ nx' = s.nx
          /\ IF s.d[<<i, i>>] < 0 THEN pc' = "negative" /\ UNCHANGED <<k, i>>
             ELSE IF i < I.n THEN i' = i + 1 /\ UNCHANGED <<pc, k>>
             ELSE IF k < I.n THEN k' = k + 1 /\ i' = 1 /\ UNCHANGED pc
             ELSE pc' = "valid" /\ UNCHANGED <<k, i>>
       /\ UNCHANGED I
Next == Begin \/ Row
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RECURSIVE PathTo(_, _, _)
PathTo(s, t, fuel) == IF s = t \/ fuel = 0 THEN <<t>> ELSE Append(PathTo(s, nx[<<s, t>>], fuel - 1), t)
\* walk the predecessors of element until a node comes up again
RECURSIVE Collect(_, _)
Collect(cyc, m) == IF m \in {cyc[q] : q \in DOMAIN cyc} THEN <<cyc, m>>
                   ELSE Collect(<<cyc[1], m>> \o Tail(cyc), nx[<<cyc[1], m>>])
CycleAt(e) == LET r == Collect(<<e>>, nx[<<e, e>>])
                  cyc == r[1] m == r[2]
                  at == CHOOSE q \in DOMAIN cyc : cyc[q] = m
              IN IF m = e THEN cyc ELSE SubSeq(cyc, 2, at)
NegCyc(cyc) == IsCycle(A, cyc) /\ Simple(cyc) /\ CycleCost(I.c, cyc) < 0
\* during the run: every finite entry is the cost of a walk that only passes
\* through nodes already tried, and no simple such path is cheaper
WalkInv == pc = "run" => \A p \in N \X N :
    /\ d[p] < INF => (p[1] = p[2] /\ d[p] = 0) \/ nx[p] \in N
    /\ d[p] >= Dist(N, A, I.c, p[1])[p[2]] \/ HasNegCycle(N, A, I.c)
    /\ pc = "run" /\ p \in A => d[p] <= I.c[p] \/ p[1] = p[2]
Correct == /\ pc \in {"valid", "negative"} => (pc = "negative") = HasNegCycle(N, A, I.c)
           /\ pc = "valid" => \A s \in N : LET e == Dist(N, A, I.c, s) IN \A t \in N :
                /\ d[<<s, t>>] = e[t]
                /\ e[t] < INF => LET p == PathTo(s, t, I.n) IN
                      IsPath(A, p, s, t) /\ Simple(p) /\ PathCost(I.c, p) = e[t]
           /\ pc = "negative" => \A e \in N : d[<<e, e>>] < 0 => NegCyc(CycleAt(e)) /\ \E q \in DOMAIN CycleAt(e) : CycleAt(e)[q] = e
EmitInst == pc = "start" => Instance("D", I.n, I.E, I.c, NoFn, <<>>, "fw", [x |-> 0])
=============================================================================
