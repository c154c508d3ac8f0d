------------------------------- MODULE Search -------------------------------
(* Graph.search and minimum_spanning_tree_prim: one loop, four disciplines.   *)
(* The queue holds copies of nodes (DFS, BFS) or one entry with a priority    *)
(* per node (Dijkstra, Prim).  Neighbors are processed in any order.          *)
(* C04, C05, C06, C07                                                         *)
EXTENDS Instances
CONSTANTS Sizes, Kinds, Algos, CostSet, Loops, Sources, Dests, Revs
VARIABLES I, pc, Q, prio, cur, todo, pred, dist, green, res
vars == <<I, pc, Q, prio, cur, todo, pred, dist, green, res>>

Weighted == {"Dijkstra", "Prim"}
PQ == I.algo \in Weighted
N == 1..I.n
\* arcs in the direction of the search
Arc == IF I.rev = 1 THEN Rev(Walk(I.t, I.E)) ELSE Walk(I.t, I.E)
CostOf(a) == I.c[KeyOf(I.t, IF I.rev = 1 THEN <<a[2], a[1]>> ELSE a)]
Nb(v) == {a[2] : a \in {b \in Arc : b[1] = v}}

Init ==
    /\ \E n \in Sizes, t \in Kinds, algo \in Algos, s \in Sources, d \in Dests, r \in Revs :
        \E E \in SUBSET AllPairs(n, t, Loops) :
          \E c \in [E -> IF algo \in Weighted THEN CostSet ELSE {1}] :
            /\ s <= n /\ d <= n
            /\ (t = "U" => r = 0) /\ (algo = "Prim" => t = "U" /\ d = 0)
            /\ (algo = "Dijkstra" => \A e \in E : c[e] >= 0)
            /\ I = [n |-> n, t |-> t, algo |-> algo, src |-> s, dst |-> d, E |-> E, c |-> c, rev |-> r]
    /\ pc = "start" /\ Q = <<>> /\ prio = NoFn /\ cur = 0 /\ todo = {}
    /\ pred = NoFn /\ dist = NoFn /\ green = {} /\ res = "none"

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Start ==
    /\ pc = "start"
    /\ Q' = <<I.src>> /\ prio' = Set(prio, I.src, 0) /\ dist' = Set(dist, I.src, 0)
    /\ IF I.src = I.dst THEN pc' = "done" /\ res' = "path" ELSE pc' = "loop" /\ UNCHANGED res
    /\ UNCHANGED <<I, cur, todo, pred, green>>

\* the node that would be served next
Heads == IF PQ THEN {Q[i] : i \in {j \in DOMAIN Q : \A k \in DOMAIN Q : prio[Q[j]] <= prio[Q[k]]}}
         ELSE IF I.algo = "DFS" THEN {Q[Len(Q)]} ELSE {Q[1]}
RemoveOne(s, x) == LET i == CHOOSE j \in DOMAIN s : s[j] = x /\ \A k \in DOMAIN s : s[k] = x => j <= k
                   IN  SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Serve ==
    /\ pc = "loop" /\ Q # <<>>
    /\ \E v \in Heads :
        IF v \in green THEN /\ Q' = RemoveOne(Q, v)
                            /\ UNCHANGED <<I, pc, prio, cur, todo, pred, dist, green, res>>
        ELSE IF v = I.dst THEN /\ pc' = "done" /\ res' = "path" /\ cur' = v
                               /\ UNCHANGED <<I, Q, prio, todo, pred, dist, green>>
        ELSE /\ pc' = "edges" /\ cur' = v /\ todo' = Nb(v) \ {v}
             /\ UNCHANGED <<I, Q, prio, pred, dist, green, res>>

Edge ==
    /\ pc = "edges" /\ todo # {}
    /\ \E m \in todo :
        /\ todo' = todo \ {m}
        /\ IF m \in green THEN UNCHANGED <<Q, prio, pred, dist>>
           ELSE IF PQ THEN
                LET w == CostOf(<<cur, m>>) + (IF I.algo = "Dijkstra" THEN prio[cur] ELSE 0) IN
                IF m \notin DOMAIN pred \/ w < prio[m]
                THEN /\ pred' = Set(pred, m, cur) /\ prio' = Set(prio, m, w)
                     /\ Q' = IF \E i \in DOMAIN Q : Q[i] = m THEN Q ELSE Append(Q, m)
                     /\ UNCHANGED dist
                ELSE UNCHANGED <<Q, prio, pred, dist>>
           ELSE IF I.algo = "BFS" /\ m \in DOMAIN dist THEN UNCHANGED <<Q, prio, pred, dist>>
           ELSE /\ pred' = Set(pred, m, cur) /\ dist' = Set(dist, m, dist[cur] + 1)
                /\ Q' = Append(Q, m) /\ UNCHANGED prio
    /\ UNCHANGED <<I, pc, cur, green, res>>

EndEdges ==
    /\ pc = "edges" /\ todo = {}
    /\ Q' = RemoveOne(Q, cur) /\ green' = green \cup {cur} /\ pc' = "loop"
    /\ UNCHANGED <<I, prio, cur, todo, pred, dist, res>>

Finish ==
    /\ pc = "loop" /\ Q = <<>>
    /\ pc' = "done" /\ res' = IF I.dst = 0 THEN "pred" ELSE "none"
    /\ UNCHANGED <<I, Q, prio, cur, todo, pred, dist, green>>

Next == Start \/ Serve \/ Edge \/ EndEdges \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
R == Reach(Arc, I.src)
HopsI == Hops(N, Arc, I.src)
C == [a \in Arc |-> CostOf(a)]
DistI == Dist(N, Arc, C, I.src)

\* the path read off the predecessors
Path == TreePath(pred, I.src, I.dst)

Correct == pc = "done" =>
    /\ TreeOn(Arc, I.src, pred) \/ I.src \in DOMAIN pred
    /\ I.src \notin DOMAIN pred
    /\ CASE res = "path" ->
              /\ I.dst \in R /\ IsPath(Arc, Path, I.src, I.dst) /\ Simple(Path)
              /\ I.algo = "BFS" => Len(Path) - 1 = HopsI[I.dst]
              /\ I.algo = "Dijkstra" => PathCost(C, Path) = DistI[I.dst]
         [] res = "none" -> I.dst # 0 /\ I.dst \notin R
         [] res = "pred" ->
              /\ I.dst = 0 /\ DOMAIN pred \cup {I.src} = R
              /\ I.algo = "DFS" => DepthFirstTree(Arc, I.src, pred)
              /\ I.algo = "BFS" => /\ DOMAIN dist = R /\ \A v \in R : dist[v] = HopsI[v]
                                   /\ \A v \in DOMAIN pred : dist[v] = dist[pred[v]] + 1
              /\ I.algo = "Dijkstra" =>
                    /\ \A v \in R : prio[v] = DistI[v]
                    /\ \A v \in DOMAIN pred : TreeCost(C, pred, I.src, v) = DistI[v]
              /\ I.algo = "Prim" =>
                    LET T == {Norm(<<v, pred[v]>>) : v \in DOMAIN pred} IN
                    /\ SpanningTree(R, T)
                    /\ MinimalForest({e \in I.E : e[1] \in R}, I.c, T)

\* while the search runs
LoopInv == pc \in {"loop", "edges"} =>
    /\ green \subseteq R
    /\ \A v \in green \ {I.src} : v \in DOMAIN pred
    /\ \A v \in green : \A m \in Nb(v) : m \in green \/ m = I.src \/ \E i \in DOMAIN Q : Q[i] = m
    /\ I.algo = "Dijkstra" => \A v \in green : prio[v] = DistI[v]
    /\ I.algo = "BFS" => \A v \in DOMAIN dist : dist[v] = HopsI[v]
Terminates == <>(pc = "done")

EmitInst == pc = "start" =>
    Instance(I.t, I.n, I.E, IF PQ THEN I.c ELSE NoFn, NoFn, <<>>, IF I.algo = "Prim" THEN "prim" ELSE "search",
             [src |-> I.src, dst |-> I.dst, algo |-> I.algo, rev |-> I.rev, comp |-> NA])
=============================================================================
