------------------------------- MODULE DotSays -------------------------------
(* When a text that was read describes a graph object.  The object: g is the  *)
(* graph (GraphOps), cl a sequence of clusters [N: set of nodes, at, na:      *)
(* functions from key to value], ga a function from graph attribute to value. *)
(* nm, ks, vs give the texts (code points) of node names, keys and values.    *)
EXTENDS Dot, GraphOps
NAT(f) == {x \in DOMAIN f : f[x] # NA}
\* the node or nodes a token names
NodeOf(g, nm, t) == {n \in Nodes(g) : Means(t, nm[n])}
KeyOnce(at) == \A i, j \in DOMAIN at : i # j => at[i][1].v # at[j][1].v
\* a list of <<key, value>> tokens against a function from keys to values
SaysAttrs(at, f, ks, vs) ==
    /\ Len(at) = Cardinality(NAT(f)) /\ KeyOnce(at)
    /\ \A x \in NAT(f) : \E i \in DOMAIN at : Means(at[i][1], ks[x]) /\ Means(at[i][2], vs[f[x]])
\* ... after an algorithm has run: it writes attributes with the names wk, and the
\* object says it has the attributes ob (<<key, value>> texts) of these names;
\* other names the session does not use are the algorithm's own affair
NONE == <<78, 111, 110, 101>>
SaysWith(at, f, ks, vs, wk, ob) ==
    IF wk = {} THEN SaysAttrs(at, f, ks, vs)
    ELSE LET known == {x \in NAT(f) : ks[x] \notin wk}
             Keyed(i, t) == Means(at[i][1], t)
         IN /\ KeyOnce(at)
            /\ \A x \in known : \E i \in DOMAIN at : Keyed(i, ks[x]) /\ Means(at[i][2], vs[f[x]])
            /\ \A j \in DOMAIN ob : \E i \in DOMAIN at : Keyed(i, ob[j][1]) /\ Means(at[i][2], ob[j][2])
            /\ \A i \in DOMAIN at :
                 /\ \A x \in DOMAIN ks : (ks[x] \notin wk /\ Keyed(i, ks[x])) => x \in known
                 /\ \A k \in wk : Keyed(i, k) => Means(at[i][2], NONE) \/ \E j \in DOMAIN ob : ob[j][1] = k
SubsAt(p, sc) == {i \in DOMAIN p.subs : p.subs[i].up = sc}
NodeStmts(g, nm, p, n) == {i \in DOMAIN p.N : n \in NodeOf(g, nm, p.N[i].v)}
EdgeStmts(g, nm, p, e) == {i \in DOMAIN p.E :
    LET A == NodeOf(g, nm, p.E[i].a)
        B == NodeOf(g, nm, p.E[i].b)
    IN (e[1] \in A /\ e[2] \in B) \/ (g.t = "U" /\ e[2] \in A /\ e[1] \in B)}
SaysType(p, g) == p.type = IF g.t = "D" THEN "digraph" ELSE "graph"
SaysNodes(p, g, nm) == /\ Len(p.N) = Cardinality(Nodes(g))
                       /\ \A n \in Nodes(g) : Cardinality(NodeStmts(g, nm, p, n)) = 1
SaysEdges(p, g, nm) == /\ Len(p.E) = Cardinality(Edges(g))
                       /\ \A e \in Edges(g) : Cardinality(EdgeStmts(g, nm, p, e)) = 1
TheNode(p, g, nm, n) == p.N[CHOOSE i \in NodeStmts(g, nm, p, n) : TRUE]
TheEdge(p, g, nm, e) == p.E[CHOOSE i \in EdgeStmts(g, nm, p, e) : TRUE]
\* ob gives what the object says about each node, each edge
SaysNodeAttrs(p, g, nm, ks, vs, wk, ob) ==
    \A n \in Nodes(g) : SaysWith(TheNode(p, g, nm, n).at, g.na[n], ks, vs, wk, ob[n])
SaysEdgeAttrs(p, g, nm, ks, vs, wk, ob) ==
    \A e \in Edges(g) : SaysWith(TheEdge(p, g, nm, e).at, g.ea[e], ks, vs, wk, ob[e])
Nothing(D) == [d \in D |-> <<>>]
\* layout is an attribute every graph has
LAYOUT == <<108, 97, 121, 111, 117, 116>>
Assigned(p, sc) == LET q == SelectSeq(p.G, LAMBDA a : a.sc = sc) IN [i \in DOMAIN q |-> <<q[i].k, q[i].v>>]
SaysGraphAttrs(p, ga, ks, vs) ==
    LET at == Assigned(p, 0)
        plain == SelectSeq(at, LAMBDA a : a[1].v # LAYOUT)
        f == [x \in {x \in NAT(ga) : ks[x] # LAYOUT} |-> ga[x]]
    IN /\ SaysAttrs(plain, f, ks, vs)
       /\ \A x \in NAT(ga) \ DOMAIN f : \E i \in DOMAIN at : at[i][1].v = LAYOUT /\ Means(at[i][2], vs[ga[x]])
NoDefaults(p) == \A i \in DOMAIN p.D : p.D[i].sc # 0
-----------------------------------------------------------------------------
(* clusters *)
NAME == <<110, 97, 109, 101>>
CLUSTER == <<99, 108, 117, 115, 116, 101, 114>>
ClusterAttrs(p, i) == SelectSeq(Assigned(p, i), LAMBDA a : a[1].v # NAME)
Defaults(p, i) == LET q == SelectSeq(p.D, LAMBDA a : a.sc = i /\ a.w = "nodes") IN [j \in DOMAIN q |-> <<q[j].k, q[j].v>>]
Within(g, M) == {e \in Edges(g) : e[1] \in M /\ e[2] \in M}
\* subgraph i is cluster c
IsCluster(p, g, nm, ks, vs, i, c) ==
    LET st == {j \in DOMAIN p.N : p.N[j].sc = i}
        ed == {j \in DOMAIN p.E : p.E[j].sc = i}
    IN /\ UNION {NodeOf(g, nm, p.N[j].v) : j \in st} = c.N /\ Cardinality(st) = Cardinality(c.N)
       /\ \A e \in Within(g, c.N) : EdgeStmts(g, nm, p, e) \cap ed # {}
       /\ Cardinality(ed) = Cardinality(Within(g, c.N))
       /\ SaysAttrs(ClusterAttrs(p, i), [x \in {x \in NAT(c.at) : ks[x] # NAME} |-> c.at[x]], ks, vs)
       /\ SaysAttrs(Defaults(p, i), c.na, ks, vs)
       /\ \A j \in DOMAIN p.D : p.D[j].sc = i => p.D[j].w = "nodes"
SaysClusterNames(p) == \A i, j \in DOMAIN p.subs :
    /\ Len(p.subs[i].name) > 7 /\ SubSeq(p.subs[i].name, 1, 7) = CLUSTER
    /\ p.subs[i].up = 0 /\ (i # j => p.subs[i].name # p.subs[j].name)
\* one subgraph each, in any order
SaysClusters(p, g, cl, nm, ks, vs) ==
    /\ Len(p.subs) = Len(cl)
    /\ LET is == TLCEval([i \in DOMAIN cl |-> {j \in DOMAIN p.subs : IsCluster(p, g, nm, ks, vs, j, cl[i])}])
       IN /\ \A i \in DOMAIN cl : is[i] # {}
          /\ \A j \in DOMAIN p.subs : \E i \in DOMAIN cl : j \in is[i]
          \* clusters that look the same have equally many subgraphs
          /\ \A i \in DOMAIN cl : Cardinality({k \in DOMAIN cl : is[k] = is[i]}) = Cardinality(is[i])
\* what is in no cluster is outside
SaysRest(p, g, cl, nm) ==
    LET In(e) == \E i \in DOMAIN cl : e \in Within(g, cl[i].N)
    IN /\ \A n \in Nodes(g) : (\A i \in DOMAIN cl : n \notin cl[i].N) => TheNode(p, g, nm, n).sc = 0
       /\ \A e \in Edges(g) : ~In(e) => TheEdge(p, g, nm, e).sc = 0
Describes(r, g, cl, ga, nm, ks, vs) ==
    /\ r.ok /\ SaysType(r.p, g) /\ SaysNodes(r.p, g, nm) /\ SaysEdges(r.p, g, nm)
    /\ SaysNodeAttrs(r.p, g, nm, ks, vs, {}, Nothing(Nodes(g))) /\ SaysEdgeAttrs(r.p, g, nm, ks, vs, {}, Nothing(Edges(g)))
    /\ SaysGraphAttrs(r.p, ga, ks, vs)
    /\ NoDefaults(r.p) /\ SaysClusterNames(r.p) /\ SaysClusters(r.p, g, cl, nm, ks, vs) /\ SaysRest(r.p, g, cl, nm)
=============================================================================
