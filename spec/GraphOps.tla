------------------------------ MODULE GraphOps ------------------------------
(***************************************************************************)
(* The operations of the abstract graph object as functions.  Every        *)
(* operation says whether the call succeeds and what graph results.        *)
(* GraphADT.tla is the state machine made of them, TraceGraph.tla applies  *)
(* the same functions to recorded calls, GraphImpl.tla is shown to refine  *)
(* GraphADT.                                                               *)
(*                                                                         *)
(* Node names are integers; the harness maps them to real names.  The      *)
(* attributes of a node or an edge are a function from AttrNames to        *)
(* values, NA standing for an attribute that was never given.              *)
(***************************************************************************)
EXTENDS Graphs, TLC
CONSTANT AttrNames

NoAttr == [x \in AttrNames |-> NA]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropAll(f, K) == [x \in DOMAIN f \ K |-> f[x]]
Drop(f, k)   == DropAll(f, {k})
NoFun == [x \in {} |-> 0]

\* t is "D" (directed) or "U"
Empty(t) == [t |-> t, na |-> NoFun, ea |-> NoFun]
Nodes(g) == DOMAIN g.na
Edges(g) == DOMAIN g.ea
Key(g, a, b) == IF g.t = "U" THEN Norm(<<a, b>>) ELSE <<a, b>>
HasEdge(g, a, b) == Key(g, a, b) \in Edges(g)
Incident(g, n) == {e \in Edges(g) : e[1] = n \/ e[2] = n}
\* arcs along which one can walk
Arcs(g) == IF g.t = "U" THEN Sym(Edges(g)) ELSE Edges(g)

Ok(g)     == [ok |-> TRUE,  g |-> g]
Reject(g) == [ok |-> FALSE, g |-> g]

WithNode(g, n, at) == IF n \in Nodes(g) THEN g ELSE [g EXCEPT !.na = Upd(g.na, n, at)]

AddNode(g, n, at) == IF n \in Nodes(g) THEN Reject(g) ELSE Ok(WithNode(g, n, at))
DelNode(g, n) ==
    IF n \notin Nodes(g) THEN Reject(g)
    ELSE Ok([g EXCEPT !.na = Drop(g.na, n), !.ea = DropAll(g.ea, Incident(g, n))])
AddEdge(g, a, b, at) ==
    IF HasEdge(g, a, b) THEN Reject(g)
    ELSE Ok([WithNode(WithNode(g, a, NoAttr), b, NoAttr) EXCEPT
                !.ea = Upd(g.ea, Key(g, a, b), at)])
DelEdge(g, a, b) ==
    IF ~HasEdge(g, a, b) THEN Reject(g)
    ELSE Ok([g EXCEPT !.ea = Drop(g.ea, Key(g, a, b))])
\* deleting those of the nodes L, or the edges L, that are there, going through the list of all nodes or edges
DelNodes(g, L) ==
    LET K == L \cap Nodes(g)
    IN Ok([g EXCEPT !.na = DropAll(g.na, K), !.ea = DropAll(g.ea, UNION {Incident(g, n) : n \in K})])
DelEdges(g, L) == Ok([g EXCEPT !.ea = DropAll(g.ea, {Key(g, e[1], e[2]) : e \in L})])
\* preconditions: the node or edge exists
SetNode(g, n, x, v) == Ok([g EXCEPT !.na[n] = [g.na[n] EXCEPT ![x] = v]])
SetEdge(g, a, b, x, v) ==
    LET k == Key(g, a, b) IN Ok([g EXCEPT !.ea[k] = [g.ea[k] EXCEPT ![x] = v]])

\* what the queries return
OutSet(g, n) == {a[2] : a \in {b \in Arcs(g) : b[1] = n}}
InSet(g, n)  == {e[1] : e \in {b \in Edges(g) : b[2] = n}}
\* how often m is listed among the neighbors of n (an undirected self loop twice)
Multiplicity(g, n, m) == IF g.t = "U" /\ m = n THEN 2 ELSE 1
OutDegree(g, n) == Cardinality({e \in Edges(g) : e[1] = n})
InDegree(g, n)  == Cardinality({e \in Edges(g) : e[2] = n})
Degree(g, n) == OutDegree(g, n) + InDegree(g, n)
\* largest number of edges on a shortest path; INF if not connected
Diameter(g) ==
    Max({Hops(Nodes(g), Arcs(g), n)[m] : n \in Nodes(g), m \in Nodes(g)})
=============================================================================
