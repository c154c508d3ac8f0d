----------------------------- MODULE TraceGraph -----------------------------
(***************************************************************************)
(* Checks executions recorded from the real Graph class against the        *)
(* specification.  The state is the set of abstract graphs of the current  *)
(* session (GraphOps); a recorded call is one step: the operation of the   *)
(* specification is applied, and everything the public queries showed      *)
(* afterwards has to be what the specification says.  Calls of algorithms  *)
(* leave the abstract graph as it is and are judged by the definitions of  *)
(* Graphs.tla on it.                                                       *)
(*                                                                         *)
(* A clause is (property, name, formula).  Verdicts are total: a failing   *)
(* clause is printed with the number of the event, the state is            *)
(* resynchronised with what was observed, and the rest of the trace is     *)
(* judged as well.                                                         *)
(***************************************************************************)
EXTENDS GraphOps, Json, IOUtils

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

VARIABLES l, S

Want(p) == PROP = "ALL" \/ PROP = p
Chk(p, name, b) == IF Want(p) /\ ~b THEN {<<p, name>>} ELSE {}

SetOf(s) == {s[i] : i \in DOMAIN s}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

-----------------------------------------------------------------------------
(* what was observed *)
Attrs(row, k) == [x \in 1..6 |-> row[x + k]]
ObsGraph(o) ==
    LET N  == {i \in SetOf(o.n) : i > 0}
        K(a, b) == IF o.t = "U" THEN Norm(<<a, b>>) ELSE <<a, b>>
        E  == {K(o.ea[i][1], o.ea[i][2]) : i \in DOMAIN o.ea}
        NA1(n) == LET r == CHOOSE i \in DOMAIN o.na : o.na[i][1] = n IN Attrs(o.na[r], 1)
        EA1(e) == LET r == CHOOSE i \in DOMAIN o.ea : K(o.ea[i][1], o.ea[i][2]) = e
                  IN  Attrs(o.ea[r], 2)
    IN [t |-> o.t, na |-> [n \in N |-> NA1(n)], ea |-> [e \in E |-> EA1(e)]]

\* do the views of o show the structure of g?  -> names of the views that do not
Structure(o, g) ==
    LET N == Nodes(g)
        E == Edges(g)
        A == Arcs(g)
        U == 1..Len(o.o)
        out == TLCEval([i \in N |-> OutSet(g, i)])
        c(name, b) == IF b THEN {} ELSE {name}
        lists(f) == \A i \in N : /\ SetOf(f[i]) = out[i]
                                 /\ \A m \in out[i] : CountIn(f[i], m) = Multiplicity(g, i, m)
    IN IF o.x = 1 THEN {"queries raise"} ELSE
       c("get_node_list", SetOf(o.n) = N /\ Len(o.n) = Cardinality(N))
       \cup c("get_edge_list", {Key(g, e[1], e[2]) : e \in Pairs(o.e)} = E /\ Len(o.e) = Cardinality(E))
       \cup (IF SetOf(o.n) # N THEN {} ELSE
             c("get_neighbors", lists(o.o))
             \cup c("get_out_neighbors", lists(o.q))
             \cup c("get_in_neighbors", g.t = "D" =>
                     \A i \in N : LET s == InSet(g, i) IN SetOf(o.i[i]) = s /\ Len(o.i[i]) = Cardinality(s)))
       \* one line per node: the node and its neighbors
       \cup c("printed representation", o.rx = 1 =>
               /\ Len(o.rp) = Cardinality(N) /\ {o.rp[k][1] : k \in DOMAIN o.rp} = N
               /\ \A k \in DOMAIN o.rp : LET s == SubSeq(o.rp[k], 2, Len(o.rp[k]))
                                             i == o.rp[k][1]
                                         IN  SetOf(s) = out[i] /\ \A m \in out[i] : CountIn(s, m) = Multiplicity(g, i, m))
       \cup c("check_edge", Pairs(o.c) = A)
       \cup c("edge in graph", Pairs(o.k) = A)
       \cup c("node in graph", SetOf(o.m) = N \cap SetOf(o.mt))
       \cup c("get_node", SetOf(o.gn) = N)
       \cup c("get_node_num", o.nn = Cardinality(N))
       \cup c("get_edge_num", o.en = Cardinality(E))

Attributes(o, g) ==
    LET c(name, b) == IF b THEN {} ELSE {name} IN
    IF o.x = 1 THEN {} ELSE IF o.ax = 1 THEN {"reading attributes raises"} ELSE
    c("get_node_attr", \A i \in DOMAIN o.na :
          o.na[i][1] \in Nodes(g) => \A x \in 1..6 : o.na[i][x + 1] = g.na[o.na[i][1]][x])
    \cup c("Node.get_attr", \A i \in DOMAIN o.na2 :
          o.na2[i][1] \in Nodes(g) => \A x \in 1..6 : o.na2[i][x + 1] = g.na[o.na2[i][1]][x])
    \cup c("get_edge_attr", \A i \in DOMAIN o.ea :
          HasEdge(g, o.ea[i][1], o.ea[i][2]) =>
             \A x \in 1..6 : o.ea[i][x + 2] = g.ea[Key(g, o.ea[i][1], o.ea[i][2])][x])
    \cup c("get_edge_attr of the other orientation", \A i \in DOMAIN o.er :
          HasEdge(g, o.er[i][1], o.er[i][2]) =>
             \A x \in 1..6 : o.er[i][x + 2] = g.ea[Key(g, o.er[i][1], o.er[i][2])][x])
    \cup c("get_edge_cost", \A i \in DOMAIN o.ec :
          HasEdge(g, o.ec[i][1], o.ec[i][2]) => o.ec[i][4] = g.ea[Key(g, o.ec[i][1], o.ec[i][2])][o.ec[i][3]])
    \* attributes, name and type of the graph are those it was made with
    \cup c("attributes of the graph", o.ga = o.gw)

-----------------------------------------------------------------------------
(* algorithms: the clauses for a call that returned.  g is the abstract    *)
(* graph, comp0 and comp1 the component labels before and after.           *)
PosPairs(s) == \A i \in DOMAIN s : s[i][1] > 0 /\ s[i][2] > 0
KeysOnce(s) == Cardinality({s[i][1] : i \in DOMAIN s}) = Len(s)
PredFun(s) == TLCEval([v \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = v][2]])
Cost(g) == TLCEval([a \in Arcs(g) |-> g.ea[Key(g, a[1], a[2])][1]])
Cap(g)  == TLCEval([e \in Edges(g) |-> g.ea[e][2]])
Demand(g) == TLCEval([n \in Nodes(g) |-> g.na[n][3]])
HasCosts(g) == \A e \in Edges(g) : g.ea[e][1] # NA
HasCaps(g)  == \A e \in Edges(g) : g.ea[e][2] # NA /\ g.ea[e][2] >= 0
HasDemands(g) == \A n \in Nodes(g) : g.na[n][3] # NA
FlowFun(s) == TLCEval([e \in Pairs(s) |-> s[CHOOSE i \in DOMAIN s : s[i][1] = e[1] /\ s[i][2] = e[2]][3]])
FlowShape(g, s) == Pairs(s) = Edges(g) /\ Len(s) = Cardinality(Edges(g))
                   /\ \A i \in DOMAIN s : s[i][3] # NA /\ s[i][3] # BAD

SameLabels(g, c0, c1) == \A v \in Nodes(g) : c1[v] = c0[v]

TreeResult(res) == res.kind = "dict" /\ PosPairs(res.pred) /\ KeysOnce(res.pred)

SearchArcs(g, p) == IF p.rev = 1 /\ g.t = "D" THEN Rev(Edges(g)) ELSE Arcs(g)
Search(g, p, res, c0, c1) ==
    LET N == Nodes(g)
        A == SearchArcs(g, p)
        R == Reach(A, p.src)
        P == PredFun(res.pred)
        plain == p.algo \in {"DFS", "BFS", "UnweightedSPT"}
        bfs   == p.algo \in {"BFS", "UnweightedSPT"}
        dij   == p.algo = "Dijkstra" /\ HasCosts(g) /\ NonNegative(Edges(g), Cost(g))
        prim  == p.algo = "Prim" /\ g.t = "U" /\ HasCosts(g)
        c == LET k == Cost(g) IN IF p.rev = 1 /\ g.t = "D" THEN [a \in A |-> k[<<a[2], a[1]>>]] ELSE k
        hops == Hops(N, A, p.src)
        d    == Dist(N, A, c, p.src)
        istree == TreeResult(res) /\ TreeOn(A, p.src, P)
        ispath == res.kind = "path" /\ IsPath(A, res.path, p.src, p.dst)
        tree(q, exact) ==
            Chk(q, "search: predecessor tree of arcs", istree)
            \cup Chk(q, "search: tree covers the reachable nodes", istree => DOMAIN P \cup {p.src} = R)
        path(q) ==
            Chk(q, "search: path to a reachable destination", p.dst \in R => ispath /\ Simple(res.path))
            \cup Chk(q, "search: None if the destination is unreachable", p.dst \notin R => res.kind = "none")
    IN (IF ~plain THEN {} ELSE
          (IF p.dst = 0 THEN tree("C04", TRUE) ELSE path("C04"))
          \cup (IF p.dst = 0 /\ ~bfs /\ istree /\ Want("C04")
                THEN Chk("C04", "search: depth-first tree", DepthFirstTree(A, p.src, P)) ELSE {})
          \cup Chk("C04", "search: component labels",
                IF p.comp = NA THEN SameLabels(g, c0, c1)
                ELSE IF p.dst = 0 THEN \A v \in N : c1[v] = IF v \in R THEN p.comp ELSE c0[v]
                ELSE /\ \A v \in N : c1[v] # c0[v] => v \in R /\ c1[v] = p.comp
                     /\ ispath => \A v \in SetOf(res.path) : c1[v] = p.comp))
       \cup (IF ~bfs THEN {} ELSE
          (IF p.dst # 0 THEN
             path("C05")
             \cup Chk("C05", "bfs: fewest arcs to the destination", ispath => Len(res.path) - 1 = hops[p.dst])
           ELSE tree("C05", TRUE)
             \cup Chk("C05", "bfs: fewest arcs in the tree",
                   istree => \A v \in DOMAIN P : Len(TreePath(P, p.src, v)) - 1 = hops[v])
             \cup Chk("C05", "bfs: distance attribute",
                   \A v \in N : res.dist[v] = IF v \in R THEN hops[v] ELSE NA)))
       \cup (IF ~dij THEN {} ELSE
          (IF p.dst # 0 THEN
             path("C06")
             \cup Chk("C06", "dijkstra: cheapest path", ispath => PathCost(c, res.path) = d[p.dst])
           ELSE tree("C06", TRUE)
             \cup Chk("C06", "dijkstra: cheapest tree",
                   istree => \A v \in DOMAIN P : TreeCost(c, P, p.src, v) = d[v])
             \cup Chk("C06", "dijkstra: priority attribute", \A v \in R : res.prio[v] = d[v])))
       \cup (IF ~(prim /\ p.dst = 0) THEN {} ELSE
             tree("C07", TRUE)
             \cup Chk("C07", "prim: minimum spanning tree", istree =>
                   MinimalForest({e \in Edges(g) : e[1] \in R}, Cost(g), {Norm(<<v, P[v]>>) : v \in DOMAIN P})))

Prim(g, p, res) ==
    LET A == Arcs(g)
        P == PredFun(res.pred)
        R == Reach(A, p.src)
        istree == TreeResult(res) /\ TreeOn(A, p.src, P)
    IN Chk("C07", "prim: predecessor tree of edges", istree)
       \cup Chk("C07", "prim: tree covers the component", istree => DOMAIN P \cup {p.src} = R)
       \cup Chk("C07", "prim: minimum spanning tree", istree =>
             MinimalForest({e \in Edges(g) : e[1] \in R}, Cost(g), {Norm(<<v, P[v]>>) : v \in DOMAIN P}))

Kruskal(g, res) ==
    LET T == {Norm(e) : e \in Pairs(res.edges)}
        ok == PosPairs(res.edges) /\ Cardinality(T) = Len(res.edges)
              /\ SpanningForest(Nodes(g), Edges(g), T)
    IN Chk("C07", "kruskal: spanning forest of edges", ok)
       \cup Chk("C07", "kruskal: minimum cost", ok => MinimalForest(Edges(g), Cost(g), T))

\* the labels c number the classes Cs of the nodes from 0
Numbers(N, Cs, c) ==
    /\ {c[v] : v \in N} = 0..(Cardinality(Cs) - 1)
    /\ \A K \in Cs : \A v, w \in K : c[v] = c[w]

DfsCall(g, p, res, c0, c1) ==
    LET N  == Nodes(g)
        tr == p.transpose = 1
        A  == IF tr THEN Rev(Arcs(g)) ELSE Arcs(g)
        open == {v \in N : IF tr THEN c0[v] = NA ELSE res.disc0[v] = NA}
        ok == p.root \in open /\ (tr => p.comp # NA /\ \A v \in N : res.fin0[v] # NA)
        new == Reach({a \in A : a[1] \in open /\ a[2] \in open}, p.root)
        k  == Cardinality(new)
        dt == res.disc
        ft == res.fin
        times == /\ {dt[v] : v \in new} = (res.d0 + 1)..(res.d0 + k)
                 /\ {ft[v] : v \in new} = res.f0..(res.f0 + k - 1)
        byfin == SetToSortSeq(new, LAMBDA v, w : ft[v] > ft[w])
        D == IF p.clean = 1 /\ ~tr THEN {v \in N : dt[v] # NA} ELSE new
        P == PredFun(res.pred)
        P0 == PredFun(res.pred0)
        pos(v) == CHOOSE i \in DOMAIN res.ord : res.ord[i] = v
    IN IF ~ok THEN {} ELSE
       Chk("C10", "dfs: consecutive discovery and finish times", times)
       \cup Chk("C10", "dfs: returned counters", res.ret = <<res.d0 + k, res.f0 + k>>)
       \cup Chk("C10", "dfs: other nodes keep their times",
             \A v \in N \ new : dt[v] = res.disc0[v] /\ ft[v] = res.fin0[v])
       \cup Chk("C10", "dfs: component numbers",
             /\ \A v \in N \ new : c1[v] = c0[v]
             /\ p.comp # NA => \A v \in new : c1[v] = p.comp)
       \cup (IF ~times THEN {} ELSE
          Chk("C10", "dfs: the root is discovered first", dt[p.root] = res.d0 + 1)
          \cup Chk("C10", "dfs: times describe a depth-first forest",
                   (\A v \in D : dt[v] > NA /\ ft[v] > NA) => DepthFirstNumbering(D, A, dt, ft))
          \cup Chk("C10", "dfs: predecessors are the parents", (p.pred = 1 /\ ~tr) =>
                /\ KeysOnce(res.pred) /\ DOMAIN P = DOMAIN P0 \cup (new \ {p.root})
                /\ \A v \in new \ {p.root} : P[v] = ParentOf(new, dt, ft, v)
                /\ \A v \in DOMAIN P0 \ new : P[v] = P0[v])
          \cup Chk("C10", "dfs: order list", p.order = 1 => res.ord = byfin \o res.ord0)
          \cup Chk("C10", "dfs: arcs point forwards in the order of an acyclic graph",
                (p.order = 1 /\ p.clean = 1 /\ ~tr /\ NoDup(res.ord) /\ Acyclic(A, N)) =>
                   \A a \in A : (a[1] \in SetOf(res.ord) /\ a[2] \in SetOf(res.ord)) => pos(a[1]) < pos(a[2])))

AcyclicPath(g, p, res) ==
    LET N == Nodes(g)
        A == Edges(g)
        R == Reach(A, p.src)
        P == PredFun(res.pred)
        c == Cost(g)
        d == Dist(N, A, c, p.src)
        istree == TreeResult(res) /\ TreeOn(A, p.src, P)
        ispath == res.kind = "path" /\ IsPath(A, res.path, p.src, p.dst)
    IN IF p.dst = 0 THEN
          Chk("C17", "acyclic: predecessor tree of arcs", istree)
          \cup Chk("C17", "acyclic: exactly the reachable nodes", istree => DOMAIN P = R \ {p.src})
          \cup Chk("C17", "acyclic: cheapest tree", istree => \A v \in DOMAIN P : TreeCost(c, P, p.src, v) = d[v])
       ELSE
          Chk("C17", "acyclic: path to a reachable destination", p.dst \in R => ispath)
          \cup Chk("C17", "acyclic: cheapest path", (p.dst \in R /\ ispath) => PathCost(c, res.path) = d[p.dst])
          \cup Chk("C17", "acyclic: no path to an unreachable destination", p.dst \notin R => res.kind # "path")

NegCycle(A, c, cyc) == IsCycle(A, cyc) /\ NoDup(cyc) /\ CycleCost(c, cyc) < 0

FloydWarshall(g, res) ==
    LET N == Nodes(g)
        A == Edges(g)
        c == Cost(g)
        neg == HasNegCycle(N, A, c)
        d == TLCEval([i \in N |-> Dist(N, A, c, i)])
        far == {q \in N \X N : d[q[1]][q[2]] = INF}
    IN Chk("C15", "floyd_warshall: validity", res.valid = ~neg)
       \cup Chk("C02", "floyd_warshall_get_cycle raises for a node that is not on a negative cycle", ~res.valid \/ SetOf(res.wrong) \subseteq {"raise"})
       \cup (IF neg \/ ~res.valid THEN {} ELSE
          Chk("C15", "floyd_warshall: distances", \A i, j \in N : res.dist[i][j] = d[i][j])
          \cup Chk("C15", "floyd_warshall_get_path: None without a path", Pairs(res.nopath) = far)
          \cup Chk("C15", "floyd_warshall_get_path: shortest paths",
                \A i \in DOMAIN res.paths : LET q == res.paths[i] IN
                   /\ IsPath(A, q[3], q[1], q[2]) /\ NoDup(q[3])
                   /\ PathCost(c, q[3]) = d[q[1]][q[2]])
          \cup Chk("C02", "floyd_warshall_get_cycle raises without a negative cycle", res.cr = "raise"))
       \cup (IF ~neg \/ res.valid THEN {} ELSE
          Chk("C15", "floyd_warshall_get_cycle: negative cycle", NegCycle(A, c, res.cyc))
          \cup Chk("C15", "floyd_warshall_get_cycle: negative cycle from any node",
                   \A i \in DOMAIN res.cycles : LET q == res.cycles[i] IN NegCycle(A, c, q[2]) /\ q[1] \in SetOf(q[2])))

NegativeCycle(g, res) ==
    LET N == Nodes(g)
        A == Edges(g)
        c == Cost(g)
        neg == HasNegCycle(N, A, c)
    IN Chk("C15", "get_negative_cycle: None exactly if there is none", (res.kind = "none") = ~neg)
       \cup Chk("C15", "get_negative_cycle: a negative cycle", res.kind = "cycle" => NegCycle(A, c, res.cyc))

Fifo(g, p, res) ==
    LET N == Nodes(g)
        A == Edges(g)
        c == Cost(g)
        neg == HasNegCycleFrom(N, A, c, p.src)
        d == Dist(N, A, c, p.src)
        R == Reach(A, p.src)
        real == SelectSeq(res.pred, LAMBDA q : q[2] # 0)
        P == PredFun(real)
        istree == PosPairs(real) /\ KeysOnce(res.pred) /\ TreeOn(A, p.src, P)
    IN Chk("C16", "label correcting: True exactly without a reachable negative cycle",
           res.flag = IF neg THEN "false" ELSE "true")
       \cup (IF neg THEN Chk("C16", "label correcting: negative cycle",
                             res.flag = "false" => NegCycle(A, c, res.cyc))
             ELSE Chk("C16", "label correcting: predecessor tree", istree /\ DOMAIN P = R \ {p.src})
                  \cup Chk("C16", "label correcting: only the source lacks a predecessor",
                        {q \in SetOf(res.pred) : q[2] = 0} \subseteq {<<p.src, 0>>})
                  \cup Chk("C16", "label correcting: cheapest tree",
                        istree => \A v \in DOMAIN P : TreeCost(c, P, p.src, v) = d[v])
                  \cup Chk("C16", "label correcting: distances", \A v \in N : res.dist[v] = d[v]))

MaxFlow(g, p, res) ==
    LET A == Edges(g)
        u == Cap(g)
        f == FlowFun(res.flow)
        q == IF p.algo = "preflow" THEN "C12" ELSE "C11"
        shape == FlowShape(g, res.flow)
    IN Chk(q, "max flow: every arc has a flow", shape)
       \cup Chk(q, "max flow: within the capacities", shape => WithinBounds(A, u, f))
       \cup Chk(q, "max flow: conserved",
                shape => \A v \in Nodes(g) \ {p.s, p.t} : Net(A, f, v) = 0)
       \cup Chk(q, "max flow: maximum", shape => NoAugmentingPath(A, u, f, p.s, p.t))

Min2(s) == Min({s[i] : i \in DOMAIN s})
CycArcs(c) == [i \in 1..Len(c) |-> <<c[i], c[IF i = Len(c) THEN 1 ELSE i + 1]>>]

ResidualGraph(g, res) ==
    LET A == Edges(g)
        u == Cap(g)
        c == Cost(g)
        f == FlowFun(res.flow)
        ok == g.t = "D" /\ HasCaps(g) /\ HasCosts(g) /\ AntiparallelFree(A)
              /\ FlowShape(g, res.flow) /\ WithinBounds(A, u, f)
        RC == ResidualCap(A, u, f)
        RK == ResidualCost(A, c)
        want == {<<a[1], a[2], RK[a], RC[a]>> : a \in Residual(A, u, f)}
        have == SetOf(res.arcs)
    IN IF ~ok THEN {} ELSE
       Chk("C29", "residual graph: exactly the residual arcs", have = want /\ Len(res.arcs) = Cardinality(want))
       \cup Chk("C29", "residual graph is directed", res.directed = 1)
       \cup Chk("C29", "residual graph leaves the flow alone", FlowShape(g, res.flow2) /\ FlowFun(res.flow2) = f)
       \cup Chk("C29", "cycle capacity in the residual graph", have = want =>
             \A i \in DOMAIN res.caps : LET cyc == CycArcs(res.caps[i][1]) IN
                (\A k \in DOMAIN cyc : cyc[k] \in DOMAIN RC) =>
                    res.caps[i][2] = Min2([k \in DOMAIN cyc |-> RC[cyc[k]]]))

\* the graph of the arcs which have flow and spare capacity
SolutionGraph(g, res) ==
    LET A == Edges(g)
        u == Cap(g)
        f == FlowFun(res.flow)
    IN IF ~FlowShape(g, res.flow) THEN {} ELSE
       Chk("C29", "solution graph: the nodes", SetOf(res.nodes) = Nodes(g) /\ NoDup(res.nodes))
       \cup Chk("C29", "solution graph: the arcs with flow strictly within the bounds",
             Pairs(res.arcs) = {a \in A : 0 < f[a] /\ f[a] < u[a]} /\ NoDup(res.arcs))
       \cup Chk("C29", "solution graph is a directed graph of its own", res.directed = 1)
       \cup Chk("C29", "solution graph leaves the flow alone", FlowShape(g, res.flow2) /\ FlowFun(res.flow2) = f)

CycleCap(g, res) ==
    LET u == [e \in Arcs(g) |-> g.ea[Key(g, e[1], e[2])][2]]
    IN Chk("C29", "cycle capacity", \A i \in DOMAIN res.caps : LET cyc == CycArcs(res.caps[i][1]) IN
              (\A k \in DOMAIN cyc : cyc[k] \in DOMAIN u) =>
                    res.caps[i][2] = Min2([k \in DOMAIN cyc |-> u[cyc[k]]]))

Augment(g, res) ==
    LET A == Edges(g)
        f0 == FlowFun(res.flow0)
        f1 == FlowFun(res.flow)
        cyc == CycArcs(res.cyc)
        fwd(e) == Cardinality({k \in DOMAIN cyc : cyc[k] = e})
        bwd(e) == Cardinality({k \in DOMAIN cyc : cyc[k] = <<e[2], e[1]>>})
        ok == g.t = "D" /\ AntiparallelFree(A) /\ FlowShape(g, res.flow0)
    IN IF ~ok \/ res.cyc = <<>> THEN {} ELSE
       Chk("C29", "augment_cycle", FlowShape(g, res.flow) /\
             \A e \in A : f1[e] = f0[e] + res.amount * (fwd(e) - bwd(e)))

MinCost(g, p, res) ==
    LET N == Nodes(g)
        A == Edges(g)
        u == Cap(g)
        b == Demand(g)
        c == Cost(g)
        f == FlowFun(res.flow)
        q == IF p.how = 2 \/ p.algo = "cycle_canceling" THEN "C13" ELSE "C14"
        ok == /\ g.t = "D" /\ N # {} /\ HasCaps(g) /\ HasCosts(g) /\ HasDemands(g)
              /\ AntiparallelFree(A) /\ Connected(N, A)
        shape == FlowShape(g, res.flow)
    IN IF ~ok \/ ~Want(q) THEN {} ELSE
       IF res.inf = 1 THEN Chk(q, "min cost flow: infeasible only if no flow exists",
                               IF Cardinality(N) <= 7 THEN ~Satisfiable(N, A, u, b) ELSE ~Routable(N, A, u, b))
       ELSE Chk(q, "min cost flow: every arc has a flow", shape)
            \cup Chk(q, "min cost flow: feasible flow", shape => Satisfies(N, A, u, b, f))
            \cup Chk(q, "min cost flow: minimum cost",
                     (shape /\ p.how # 2 /\ Satisfies(N, A, u, b, f)) => NoNegativeResidualCycle(N, A, u, c, f))

Abs(x) == IF x < 0 THEN -x ELSE x
PageRank(g, p, res) ==
    LET N == Nodes(g)
        n == Cardinality(N)
        r == PredFun(res.rank)
        shape == KeysOnce(res.rank) /\ {res.rank[i][1] : i \in DOMAIN res.rank} = N
        rhs(v) == ((100 - p.d) * 10000) \div n
                  + SumOver(InSet(g, v), LAMBDA w : (p.d * (r[w] \div OutDegree(g, w))) \div 100)
    IN Chk("C25", "page rank: a rank for every node", shape)
       \cup Chk("C25", "page rank: equations", (shape /\ p.exact = 1) =>
              \A v \in N : Abs(r[v] - rhs(v)) <= 3 + 2 * n)
       \* stopped by its tolerance (in units of 10^-6), the last change bounds the errors
       \cup Chk("C25", "page rank: equations within the tolerance", (shape /\ p.exact = 0 /\ p.tol > 0) =>
              SumOver(N, LAMBDA v : Abs(r[v] - rhs(v))) <= p.tol + n * (3 + 2 * n))

DegreeMap(g, res, f(_)) ==
    KeysOnce(res.deg) /\ SetOf(res.deg) = {<<v, f(v)>> : v \in Nodes(g)}

Ham(g, p, res) ==
    LET N == Nodes(g)
        A == Arcs(g)
        has == HamPathTo(N, A, p.src, p.dst)
        P == PredFun(res.pred)
        full == (N \ {p.src}) \subseteq DOMAIN P
        Q == [v \in N \ {p.src} |-> P[v]]
        last == {v \in N : \A w \in DOMAIN Q : Q[w] # v}
    IN Chk("C26", "hamiltonian: True exactly if there is a path", res.ret = IF has THEN "true" ELSE "false")
       \cup Chk("C26", "hamiltonian: predecessors form the path", (has /\ res.ret = "true" /\ p.pass = 1) =>
             /\ KeysOnce(res.pred) /\ full
             /\ \A v \in DOMAIN Q : <<Q[v], v>> \in A
             /\ \A v \in DOMAIN Q : Leads(Q, p.src, v, Cardinality(N))
             /\ Cardinality({Q[v] : v \in DOMAIN Q}) = Cardinality(DOMAIN Q)
             /\ p.dst # 0 => last = {p.dst})

\* the calls for which something is promised
Defined(op, p, g) ==
    LET N == Nodes(g) IN
    CASE op = "search" -> /\ p.src \in N /\ p.dst \in N \cup {0}
                          /\ p.algo \in {"Dijkstra", "Prim"} => HasCosts(g)
                          /\ p.algo = "Dijkstra" => NonNegative(Edges(g), Cost(g))
                          /\ p.algo = "Prim" => g.t = "U" /\ p.dst = 0
      [] op = "bfs" -> p.src \in N
      [] op = "prim" -> p.src \in N /\ g.t = "U" /\ HasCosts(g)
      [] op = "kruskal" -> g.t = "U" /\ HasCosts(g)
      [] op = "label_components" -> g.t = "U"
      [] op \in {"strong", "kosaraju"} -> g.t = "D"
      [] op = "dfs" -> p.root \in N
      [] op = "acyclic" -> /\ g.t = "D" /\ HasCosts(g) /\ Acyclic(Edges(g), N)
                           /\ p.src \in N /\ p.dst \in N \cup {0}
      [] op = "fifo" -> g.t = "D" /\ HasCosts(g) /\ p.src \in N
      [] op \in {"fw", "negcycle"} -> g.t = "D" /\ HasCosts(g)
      [] op = "maxflow" -> /\ g.t = "D" /\ HasCaps(g) /\ AntiparallelFree(Edges(g))
                           /\ p.s \in N /\ p.t \in N /\ p.s # p.t
      [] op = "mincost" -> /\ g.t = "D" /\ N # {} /\ HasCaps(g) /\ HasCosts(g) /\ HasDemands(g)
                           /\ AntiparallelFree(Edges(g)) /\ Connected(N, Edges(g))
                           /\ p.root \in N \cup {0}
      [] op \in {"residual", "augment"} -> /\ g.t = "D" /\ HasCaps(g) /\ HasCosts(g)
                                          /\ AntiparallelFree(Edges(g))
      [] op = "cyclecap" -> HasCaps(g)
      [] op = "basis" -> g.t = "D" /\ HasCaps(g)
      [] op \in {"in_degrees", "out_degrees", "pagerank"} -> g.t = "D"
      [] op = "diameter" -> g.t = "U" /\ N # {}
      [] op = "ham" -> p.src \in N /\ p.dst \in N \cup {0}
      [] OTHER -> TRUE

\* the properties that a raised exception or a call that does not return breaks
Owners(op, p, g) ==
    CASE op = "search" -> IF p.algo = "DFS" THEN {"C04"} ELSE IF p.algo = "Dijkstra" THEN {"C06"}
                          ELSE IF p.algo = "Prim" THEN {"C07"} ELSE {"C04", "C05"}
      [] op = "bfs" -> {"C04"}
      [] op \in {"prim", "kruskal"} -> {"C07"}
      [] op = "label_components" -> {"C08"}
      [] op \in {"strong", "kosaraju"} -> {"C09"}
      [] op = "dfs" -> {"C10"}
      [] op = "maxflow" -> IF p.algo = "preflow" THEN {"C12"} ELSE {"C11"}
      [] op = "mincost" -> IF p.how = 2 \/ p.algo = "cycle_canceling" THEN {"C13"} ELSE {"C14"}
      [] op \in {"fw", "negcycle"} -> {"C15"}
      [] op = "fifo" -> {"C16"}
      [] op = "acyclic" -> {"C17"}
      [] op \in {"degrees", "in_degrees", "out_degrees", "diameter"} -> {"C24"}
      [] op = "pagerank" -> {"C25"}
      [] op = "ham" -> {"C26"}
      [] op \in {"residual", "cyclecap", "augment", "basis"} -> {"C29"}
      [] OTHER -> {"C28"}

\* calls that have to be rejected
MustRaise(op, p, g) == \/ op = "label_components" /\ g.t = "D"
                       \/ op = "residual" /\ g.t = "U"

Algorithm(ev, g, c0, c1) ==
    LET p == ev.p
        res == ev.res
    IN IF MustRaise(ev.op, p, g) THEN Chk("C02", ev.op \o " must be rejected", ev.r = "raise")
       ELSE IF ~Defined(ev.op, p, g) THEN {}
       ELSE IF ev.r # "ok" THEN
            {<<q, ev.op \o " ended with " \o ev.r>> : q \in {w \in Owners(ev.op, p, g) : Want(w)}}
       ELSE CASE ev.op = "search" -> Search(g, p, res, c0, c1)
              [] ev.op = "bfs" -> Chk("C04", "bfs: component labels",
                     IF p.comp = NA THEN SameLabels(g, c0, c1)
                     ELSE LET R == Reach(Arcs(g), p.src) IN
                          \A v \in Nodes(g) : c1[v] = IF v \in R THEN p.comp ELSE c0[v])
              [] ev.op = "prim" -> Prim(g, p, res)
              [] ev.op = "kruskal" -> Kruskal(g, res)
              [] ev.op = "label_components" ->
                     LET Cs == Components(Nodes(g), Edges(g)) IN
                     Chk("C08", "components: labels", Numbers(Nodes(g), Cs, c1))
                     \cup Chk("C08", "components: number", res.num = Cardinality(Cs))
              [] ev.op \in {"strong", "kosaraju"} ->
                     LET Cs == StrongComponents(Nodes(g), Edges(g)) IN
                                   Chk("C09", ev.op \o ": labels", Numbers(Nodes(g), Cs, c1))
                     \cup Chk("C09", ev.op \o ": number", res.num = Cardinality(Cs))
              [] ev.op = "dfs" -> DfsCall(g, p, res, c0, c1)
              [] ev.op = "acyclic" -> AcyclicPath(g, p, res)
              [] ev.op = "fw" -> FloydWarshall(g, res)
              [] ev.op = "negcycle" -> NegativeCycle(g, res)
              [] ev.op = "fifo" -> Fifo(g, p, res)
              [] ev.op = "maxflow" -> MaxFlow(g, p, res)
              [] ev.op = "residual" -> ResidualGraph(g, res)
              [] ev.op = "basis" -> SolutionGraph(g, res)
              [] ev.op = "cyclecap" -> CycleCap(g, res)
              [] ev.op = "augment" -> Augment(g, res)
              [] ev.op = "mincost" -> MinCost(g, p, res)
              [] ev.op = "pagerank" -> PageRank(g, p, res)
              [] ev.op = "degrees" -> Chk("C24", "degrees", DegreeMap(g, res, LAMBDA v : Degree(g, v)))
              [] ev.op = "in_degrees" -> Chk("C24", "in-degrees",
                     g.t = "D" => DegreeMap(g, res, LAMBDA v : InDegree(g, v)))
              [] ev.op = "out_degrees" -> Chk("C24", "out-degrees",
                     g.t = "D" => DegreeMap(g, res, LAMBDA v : OutDegree(g, v)))
              [] ev.op = "diameter" -> Chk("C24", "diameter",
                     (g.t = "U" /\ Nodes(g) # {}) => res.dia = Diameter(g))
              [] ev.op = "ham" -> Ham(g, p, res)
              [] OTHER -> {}

-----------------------------------------------------------------------------
(* one event *)
Mutators == {"add_node", "del_node", "add_edge", "del_edge", "set_node", "set_edge", "del_nodes", "del_edges", "scribble"}

Step(g, ev) ==          \* the operation of the specification
    CASE ev.op = "add_node" -> AddNode(g, ev.a, ev.at)
      [] ev.op = "del_node" -> DelNode(g, ev.a)
      [] ev.op = "add_edge" -> AddEdge(g, ev.a, ev.b, ev.at)
      [] ev.op = "del_edge" -> DelEdge(g, ev.a, ev.b)
      [] ev.op = "del_nodes" -> DelNodes(g, SetOf(ev.L))
      [] ev.op = "del_edges" -> DelEdges(g, SetOf(ev.L))
      [] ev.op = "set_node" -> IF ev.a \in Nodes(g) THEN SetNode(g, ev.a, ev.x, ev.v) ELSE Reject(g)
      [] ev.op = "set_edge" -> IF HasEdge(g, ev.a, ev.b) THEN SetEdge(g, ev.a, ev.b, ev.x, ev.v) ELSE Reject(g)
      [] OTHER -> Ok(g)

\* What algorithms left on nodes and edges (wk: before and after the call) belongs to these nodes and edges.
WorkFails(g, ev, ok) ==
    IF ev.wk = <<>> THEN {} ELSE
    LET w0 == ev.wk[1]
        w1 == ev.wk[2]
        n0 == SetOf(w0[1])
        n1 == SetOf(w1[1])
        e0 == {<<Key(g, x[1], x[2]), x[3]>> : x \in SetOf(w0[2])}
        e1 == {<<Key(g, x[1], x[2]), x[3]>> : x \in SetOf(w1[2])}
        keep(old, new) == /\ \A x \in new : x \in old \/ (x[2] = 0 /\ \A y \in old : y[1] # x[1])
                          /\ \A x \in old : x \in new \/ \A y \in new : y[1] # x[1]
    IN IF ok THEN Chk("C03", "after " \o ev.op \o ": other attributes of the nodes", keep(n0, n1))
                  \cup Chk("C03", "after " \o ev.op \o ": other attributes of the edges", keep(e0, e1))
       ELSE Chk("C02", "changed by rejected " \o ev.op \o ": other attributes", n0 = n1 /\ e0 = e1)

Tag(p, pre, names) == IF Want(p) THEN {<<p, pre \o n>> : n \in names} ELSE {}

Made(ev) ==
    IF ev.op = "new" THEN Empty(ev.t)
    ELSE LET g1 == FoldLeft(LAMBDA h, x : AddNode(h, x[1], x[2]).g, Empty(ev.t), ev.nodes)
         IN  FoldLeft(LAMBDA h, x : AddEdge(h, x[1], x[2], x[3]).g, g1, ev.edges)

Judge(ev, gs) ==
    IF ev.op \in {"new", "make"} THEN
        LET fresh == TLCEval(Made(ev))
        IN [fails |-> Chk("C01", "new graph", ev.r = "ok")
                      \cup UNION {LET o == ev.obs[i]
                                      g == IF o.g = ev.g THEN fresh ELSE gs[o.g]
                                  IN Tag("C01", "after new: ", Structure(o, g))
                                     \cup Tag("C03", "after new: ", Attributes(o, g)) : i \in DOMAIN ev.obs},
            gs |-> [h \in DOMAIN gs \cup {ev.g} |-> IF h = ev.g THEN fresh ELSE gs[h]]]
    ELSE
    LET g0 == gs[ev.g]
        r  == Step(g0, ev)
        mut == ev.op \in Mutators
        exp(h) == IF h = ev.g THEN r.g ELSE gs[h]
        obsOf(h) == {i \in DOMAIN ev.obs : ev.obs[i].g = h}
        c1 == IF ev.obs = <<>> \/ ev.obs[1].x = 1 \/ ev.obs[1].ax = 1 THEN ev.comp0 ELSE ev.obs[1].comp
        bad(o) == [s |-> Structure(o, exp(o.g)), a |-> Attributes(o, exp(o.g))]
        bads == TLCEval([i \in DOMAIN ev.obs |-> bad(ev.obs[i])])
        must == ~mut /\ MustRaise(ev.op, ev.p, g0)
        viewFails(i) ==
            LET b == bads[i]
                pre == "after " \o ev.op \o ": "
            IN IF mut THEN
                 Tag("C01", pre, b.s) \cup Tag("C03", pre, b.a)
                 \cup (IF ~r.ok THEN Tag("C02", "changed by rejected " \o ev.op \o ": ", b.s \cup b.a) ELSE {})
               ELSE Tag("C28", pre, b.s \cup b.a)
                 \cup (IF must THEN Tag("C02", "changed by rejected " \o ev.op \o ": ", b.s \cup b.a) ELSE {})
        callFails ==
            IF mut THEN
               IF r.ok THEN LET q == IF ev.op \in {"set_node", "set_edge"} THEN "C03" ELSE "C01"
                            IN Chk(q, ev.op \o " ended with " \o ev.r, ev.r = "ok")
               ELSE Chk("C02", ev.op \o " must be rejected", ev.r = "raise")
            ELSE Algorithm(ev, g0, ev.comp0, c1)
        synced(h) == LET I == obsOf(h) IN
            IF I = {} THEN exp(h)
            ELSE LET i == CHOOSE j \in I : TRUE IN
                 IF bads[i].s = {} /\ bads[i].a = {} THEN exp(h)
                 ELSE IF ev.obs[i].x = 1 \/ ev.obs[i].ax = 1 THEN exp(h) ELSE ObsGraph(ev.obs[i])
    IN [fails |-> callFails \cup UNION {viewFails(i) : i \in DOMAIN ev.obs}
                  \cup (IF mut \/ must THEN WorkFails(g0, ev, mut /\ r.ok) ELSE {}),
        gs |-> [h \in DOMAIN gs |-> synced(h)]]

\* reading the object after a call did not come to an end or failed
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
NoSession == [sid |-> -1, gs |-> <<>>]

TraceInit == l = 1 /\ S = NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE [NoSession EXCEPT !.sid = ev.s]
           j  == IF Crashed(ev) THEN [fails |-> Crash(ev), gs |-> T.gs] ELSE Judge(ev, T.gs)
       IN /\ j.fails # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(j.fails)))
          /\ S' = [sid |-> ev.s, gs |-> j.gs]
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
