------------------------------- MODULE DotADT --------------------------------
(* The graph object with clusters, and its text written the way to_string     *)
(* writes it; reading the text gives the object back.  C22, C23               *)
EXTENDS DotSays, Json
CONSTANTS Names, Kinds, MaxClusters
VARIABLES g, cl, last, hist
vars == <<g, cl, last, hist>>
View == <<g, cl>>
\* node names: a, a blank, "node" (a keyword); keys: x, label; values: 1, "q, empty
nm == <<<<97>>, <<97, 32, 98>>, <<110, 111, 100, 101>>>>
ks == <<<<120>>, <<108, 97, 98, 101, 108>>>>
vs == <<<<49>>, <<34, 113>>, <<>>>>
None == [x \in AttrNames |-> NA]
Some == [None EXCEPT ![1] = 2]
Init == /\ g \in {Empty(t) : t \in Kinds} /\ cl = <<>> /\ last = [op |-> "new"] /\ hist = <<>>
Rec(r) == last' = r /\ hist' = Append(hist, r)
Free == Nodes(g) \ UNION {cl[i].N : i \in DOMAIN cl}
\* deleted nodes leave their cluster
Kept(h) == [i \in DOMAIN cl |-> [cl[i] EXCEPT !.N = @ \cap Nodes(h)]]
Op(r, rec) == r.ok /\ g' = r.g /\ cl' = Kept(r.g) /\ Rec(rec)
DoAddNode == \E n \in Names, a \in {None, Some} : Op(AddNode(g, n, a), [op |-> "add_node", a |-> n, at |-> a])
DoDelNode == \E n \in Names : Op(DelNode(g, n), [op |-> "del_node", a |-> n])
DoAddEdge == \E a, b \in Nodes(g), x \in {None, Some} :
                Op(AddEdge(g, a, b, x), [op |-> "add_edge", a |-> a, b |-> b, at |-> x])
DoDelEdge == \E a, b \in Nodes(g) : Op(DelEdge(g, a, b), [op |-> "del_edge", a |-> a, b |-> b])
DoCluster == /\ Len(cl) < MaxClusters
             /\ \E M \in SUBSET Free, a, b \in {None, Some} :
                  /\ cl' = Append(cl, [N |-> M, at |-> a, na |-> b]) /\ UNCHANGED g
                  /\ Rec([op |-> "cluster", n |-> SetToSeq(M), at |-> a, na |-> b])
Next == DoAddNode \/ DoDelNode \/ DoAddEdge \/ DoDelEdge \/ DoCluster
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* writing *)
Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Txt(n) == Quote(nm[n])
Pair(x, f) == Quote(ks[x]) \o <<61>> \o Quote(vs[f[x]])
Pairs(f, sep) == LET q == SetToSeq(NAT(f)) IN Cat([i \in DOMAIN q |-> IF i = 1 THEN Pair(q[i], f) ELSE sep \o Pair(q[i], f)])
List(f) == <<32, 91>> \o Pairs(f, <<44, 32>>) \o <<93>>
NodeText(n) == Txt(n) \o List(g.na[n]) \o <<59, 10>>
EdgeText(e) == Txt(e[1]) \o (IF g.t = "D" THEN <<32, 45, 62, 32>> ELSE <<32, 45, 45, 32>>) \o Txt(e[2])
               \o (IF NAT(g.ea[e]) = {} THEN <<>> ELSE List(g.ea[e])) \o <<59, 10>>
All(S, F(_)) == LET q == SetToSeq(S) IN Cat([i \in DOMAIN q |-> F(q[i])])
ClusterText(i) ==
    <<115, 117, 98, 103, 114, 97, 112, 104, 32>> \o CLUSTER \o <<95, 48 + i, 32, 123, 10>>
    \o (IF NAT(cl[i].at) = {} THEN <<>> ELSE Pairs(cl[i].at, <<59, 10>>) \o <<59, 10>>)
    \o (IF NAT(cl[i].na) = {} THEN <<>> ELSE <<110, 111, 100, 101>> \o List(cl[i].na) \o <<59, 10>>)
    \o All(cl[i].N, NodeText) \o All(Within(g, cl[i].N), EdgeText) \o <<125, 10>>
InCluster(n) == \E i \in DOMAIN cl : n \in cl[i].N
Outside == {n \in Nodes(g) : ~InCluster(n)}
EdgesOutside == {e \in Edges(g) : ~\E i \in DOMAIN cl : e \in Within(g, cl[i].N)}
Text == (IF g.t = "D" THEN <<100, 105>> ELSE <<>>) \o <<103, 114, 97, 112, 104, 32, 71, 32, 123, 10>>
        \o LAYOUT \o <<61, 102, 100, 112, 59, 10>>
        \o Cat([i \in DOMAIN cl |-> ClusterText(i)])
        \o All(Outside, NodeText) \o All(EdgesOutside, EdgeText) \o <<125, 10>>
GA == [x \in AttrNames |-> NA]
TextRight == Describes(Read(Text), g, cl, GA, nm, ks, vs)
\* the reader is not gullible: the text does not describe a graph with one thing changed
Strict ==
    LET r == Read(Text) IN
    /\ \A n \in Names : LET h == IF n \in Nodes(g) THEN DelNode(g, n).g ELSE AddNode(g, n, None).g
                        IN ~Describes(r, h, Kept(h), GA, nm, ks, vs)
    /\ \A a, b \in Nodes(g) : LET h == IF HasEdge(g, a, b) THEN DelEdge(g, a, b).g ELSE AddEdge(g, a, b, None).g
                        IN ~Describes(r, h, cl, GA, nm, ks, vs)
    /\ \A n \in Nodes(g) : ~Describes(r, SetNode(g, n, 1, 1).g, cl, GA, nm, ks, vs)
    /\ \A e \in Edges(g) : ~Describes(r, SetEdge(g, e[1], e[2], 1, 3).g, cl, GA, nm, ks, vs)
    /\ ~Describes(r, g, Append(cl, [N |-> {}, at |-> None, na |-> None]), GA, nm, ks, vs)
    /\ ~Describes(r, g, cl, [GA EXCEPT ![1] = 1], nm, ks, vs)
    /\ \A i \in DOMAIN cl : /\ ~Describes(r, g, [cl EXCEPT ![i].at = [None EXCEPT ![1] = 1]], GA, nm, ks, vs)
                            /\ ~Describes(r, g, [cl EXCEPT ![i].na = [None EXCEPT ![1] = 1]], GA, nm, ks, vs)
                            /\ \A n \in cl[i].N : ~Describes(r, g, [cl EXCEPT ![i].N = @ \ {n}], GA, nm, ks, vs)
                            /\ \A n \in Outside : ~Describes(r, g, [cl EXCEPT ![i].N = @ \cup {n}], GA, nm, ks, vs)
EmitRun == PrintT("B|" \o ToJson(<<g.t, hist'>>))
=============================================================================
