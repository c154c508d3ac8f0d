------------------------------ MODULE GraphADT ------------------------------
(* The abstract graph object: what a user of Graph sees (C01, C02, C03, C24) *)
EXTENDS GraphOps, Json
CONSTANTS Names, AttrVals, Kinds
VARIABLES g, last

AttrSets == {NoAttr} \cup {[NoAttr EXCEPT ![y] = v] : y \in AttrNames, v \in AttrVals}

Init == g \in {Empty(t) : t \in Kinds} /\ last = [op |-> "new", ok |-> TRUE]

Did(r, rec) == g' = r.g /\ last' = [ok |-> r.ok] @@ rec
DoAddNode == \E n \in Names, at \in AttrSets :
                Did(AddNode(g, n, at), [op |-> "add_node", a |-> n, at |-> at])
DoDelNode == \E n \in Names : Did(DelNode(g, n), [op |-> "del_node", a |-> n])
DoAddEdge == \E a, b \in Names, at \in AttrSets :
                Did(AddEdge(g, a, b, at), [op |-> "add_edge", a |-> a, b |-> b, at |-> at])
DoDelEdge == \E a, b \in Names : Did(DelEdge(g, a, b), [op |-> "del_edge", a |-> a, b |-> b])
DoSetNode == \E n \in Nodes(g), x \in AttrNames, v \in AttrVals :
                Did(SetNode(g, n, x, v), [op |-> "set_node", a |-> n, x |-> x, v |-> v])
DoSetEdge == \E a, b \in Nodes(g), x \in AttrNames, v \in AttrVals :
                /\ HasEdge(g, a, b)
                /\ Did(SetEdge(g, a, b, x, v), [op |-> "set_edge", a |-> a, b |-> b, x |-> x, v |-> v])
DoDelNodes == \E L \in SUBSET Names : Did(DelNodes(g, L), [op |-> "del_nodes", L |-> L])
DoDelEdges == \E K \in SUBSET Names : LET L == UNION {Incident(g, n) : n \in K}
                                      IN Did(DelEdges(g, L), [op |-> "del_edges", L |-> L])
\* the lists a user is given are the user's
DoScribble == Did(Ok(g), [op |-> "scribble"])
View == g
Next == DoAddNode \/ DoDelNode \/ DoAddEdge \/ DoDelEdge \/ DoSetNode \/ DoSetEdge \/ DoDelNodes \/ DoDelEdges \/ DoScribble
Spec == Init /\ [][Next]_<<g, last>>

-----------------------------------------------------------------------------
\* Invariants and action properties of the design
TypeOK == /\ g.t \in Kinds /\ Nodes(g) \subseteq Names
          /\ \A e \in Edges(g) : e[1] \in Nodes(g) /\ e[2] \in Nodes(g)
          /\ g.t = "U" => \A e \in Edges(g) : e[1] <= e[2]
RejectedUnchanged == [][~last'.ok => g' = g]_<<g, last>>
\* deleting a node removes exactly its incident edges; deleting anything keeps the rest
FrameOK == [][
    /\ g'.t = g.t
    /\ (last'.op = "del_node" /\ last'.ok) =>
          /\ Edges(g') = {e \in Edges(g) : last'.a \notin {e[1], e[2]}}
          /\ Nodes(g') = Nodes(g) \ {last'.a}
    /\ (last'.op = "del_edge" /\ last'.ok) =>
          /\ Nodes(g') = Nodes(g) /\ Cardinality(Edges(g')) = Cardinality(Edges(g)) - 1
    /\ (last'.op = "add_edge" /\ last'.ok) =>
          /\ Nodes(g') = Nodes(g) \cup {last'.a, last'.b}
          /\ Cardinality(Edges(g')) = Cardinality(Edges(g)) + 1
    \* deleting several nodes or edges is deleting one after the other, in any order
    /\ last'.op = "del_nodes" =>
          /\ Nodes(g') = Nodes(g) \ last'.L
          /\ \A n \in last'.L \cap Nodes(g) : g' = DelNodes(DelNode(g, n).g, last'.L).g
    /\ last'.op = "del_edges" =>
          /\ Nodes(g') = Nodes(g)
          /\ \A e \in last'.L : g' = DelEdges(DelEdge(g, e[1], e[2]).g, last'.L).g
    \* the attributes of everything that stays and is not set are the same
    /\ \A n \in Nodes(g) \cap Nodes(g') :
          ~(last'.op = "set_node" /\ last'.a = n) => g'.na[n] = g.na[n]
    /\ \A e \in Edges(g) \cap Edges(g') :
          ~(last'.op = "set_edge" /\ Key(g, last'.a, last'.b) = e) => g'.ea[e] = g.ea[e]
    \* a new node or edge has exactly the attributes it is given
    /\ (last'.op = "add_edge" /\ last'.ok) => g'.ea[Key(g, last'.a, last'.b)] = last'.at
    /\ (last'.op = "add_node" /\ last'.ok) => g'.na[last'.a] = last'.at
    ]_<<g, last>>
\* the sum of the degrees is twice the number of edges
Handshake == FoldSet(LAMBDA n, acc : acc + Degree(g, n), 0, Nodes(g)) = 2 * Cardinality(Edges(g))
\* the diameter is finite exactly for connected graphs, and below the number of nodes
DiameterOK == (g.t = "U" /\ Nodes(g) # {}) =>
    IF Connected(Nodes(g), Edges(g)) THEN Diameter(g) < Cardinality(Nodes(g)) ELSE Diameter(g) = INF

\* spec to code: every transition as JSON, for the transition tour of the harness
Rows(f) == LET s == SetToSeq(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], [x \in AttrNames |-> f[s[i]][x]]>>]
Flat(h) == <<h.t, Rows(h.na), Rows(h.ea)>>
Emit == PrintT("T|" \o ToJson(<<Flat(g), last'>>))
=============================================================================
