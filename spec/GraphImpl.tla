------------------------------ MODULE GraphImpl ------------------------------
(***************************************************************************)
(* The data structure behind Graph: adjacency lists, in-adjacency lists    *)
(* of directed graphs, and an edge dictionary that keeps an undirected     *)
(* edge in the orientation it was added in.  Every operation is split like *)
(* the code: the checks first, then the updates of the lists.  TLC checks  *)
(* that it refines GraphADT (C01, C02, C03) and that all views agree.      *)
(***************************************************************************)
EXTENDS GraphOps
CONSTANTS Names, AttrVals, Kinds
VARIABLES t, nd, ed, nb, inb, last
vars == <<t, nd, ed, nb, inb, last>>

\* remove the first occurrence
RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE IF s[1] = x THEN Tail(s) ELSE <<s[1]>> \o Without(Tail(s), x)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x

View == <<t, nd, ed, nb, inb>>
AttrSets == {NoAttr} \cup {[NoAttr EXCEPT ![y] = v] : y \in AttrNames, v \in AttrVals}
Init == /\ t \in Kinds
        /\ nd = NoFun /\ ed = NoFun /\ nb = NoFun /\ inb = NoFun
        /\ last = [op |-> "new", ok |-> TRUE]

Fail(rec) == UNCHANGED <<t, nd, ed, nb, inb>> /\ last' = [ok |-> FALSE] @@ rec
Done(rec) == t' = t /\ last' = [ok |-> TRUE] @@ rec

\* the lists after adding node n if it is missing
NodeIn(f, n, v) == IF n \in DOMAIN f THEN f ELSE Upd(f, n, v)

AddN(n, at) ==
    LET rec == [op |-> "add_node", a |-> n, at |-> at] IN
    IF n \in DOMAIN nb THEN Fail(rec)
    ELSE /\ nb' = Upd(nb, n, <<>>)
         /\ inb' = IF t = "D" THEN Upd(inb, n, <<>>) ELSE inb
         /\ nd' = Upd(nd, n, at)
         /\ ed' = ed /\ Done(rec)

StoredKey(a, b) == IF <<a, b>> \in DOMAIN ed THEN <<a, b>> ELSE <<b, a>>
Present(a, b) == <<a, b>> \in DOMAIN ed \/ (t = "U" /\ <<b, a>> \in DOMAIN ed)

AddE(a, b, at) ==
    LET rec == [op |-> "add_edge", a |-> a, b |-> b, at |-> at] IN
    IF Present(a, b) THEN Fail(rec)
    ELSE LET n1 == NodeIn(NodeIn(nb, a, <<>>), b, <<>>)
             i1 == NodeIn(NodeIn(inb, a, <<>>), b, <<>>)
             n2 == [n1 EXCEPT ![a] = Append(@, b)]
         IN /\ ed' = Upd(ed, <<a, b>>, at)
            /\ nd' = NodeIn(NodeIn(nd, a, NoAttr), b, NoAttr)
            /\ nb' = IF t = "U" THEN [n2 EXCEPT ![b] = Append(@, a)] ELSE n2
            /\ inb' = IF t = "U" THEN inb ELSE [i1 EXCEPT ![b] = Append(@, a)]
            /\ Done(rec)

\* delete one edge from the lists [ed, nb, inb]
Cut(s, a, b) ==
    LET k == IF <<a, b>> \in DOMAIN s.ed THEN <<a, b>> ELSE <<b, a>>
        n1 == [s.nb EXCEPT ![a] = Without(@, b)]
    IN [ed |-> Drop(s.ed, k),
        nb |-> IF t = "U" THEN [n1 EXCEPT ![b] = Without(@, a)] ELSE n1,
        inb |-> IF t = "U" THEN s.inb ELSE [s.inb EXCEPT ![b] = Without(@, a)]]
Lists == [ed |-> ed, nb |-> nb, inb |-> inb]

DelE(a, b) ==
    LET rec == [op |-> "del_edge", a |-> a, b |-> b] IN
    IF ~Present(a, b) THEN Fail(rec)
    ELSE LET s == Cut(Lists, a, b)
         IN ed' = s.ed /\ nb' = s.nb /\ inb' = s.inb /\ nd' = nd /\ Done(rec)

DelN(n) ==
    LET rec == [op |-> "del_node", a |-> n] IN
    IF n \notin DOMAIN nb THEN Fail(rec)
    ELSE LET out == SetToSeq({m \in DOMAIN nb : Has(nb[n], m)})
             s1 == FoldLeft(LAMBDA s, m : Cut(s, n, m), Lists, out)
             inn == IF t = "U" THEN <<>> ELSE s1.inb[n]
             s2 == FoldLeft(LAMBDA s, m : Cut(s, m, n), s1, inn)
         IN /\ ed' = s2.ed
            /\ nb' = Drop(s2.nb, n)
            /\ inb' = IF t = "U" THEN s2.inb ELSE Drop(s2.inb, n)
            /\ nd' = Drop(nd, n) /\ Done(rec)

SetN(n, x, v) == /\ nd' = [nd EXCEPT ![n] = [nd[n] EXCEPT ![x] = v]]
                 /\ UNCHANGED <<ed, nb, inb>>
                 /\ Done([op |-> "set_node", a |-> n, x |-> x, v |-> v])
SetE(a, b, x, v) == LET k == StoredKey(a, b) IN
                 /\ ed' = [ed EXCEPT ![k] = [ed[k] EXCEPT ![x] = v]]
                 /\ UNCHANGED <<nd, nb, inb>>
                 /\ Done([op |-> "set_edge", a |-> a, b |-> b, x |-> x, v |-> v])

Next == \/ \E n \in Names, at \in AttrSets : AddN(n, at)
        \/ \E n \in Names : DelN(n)
        \/ \E a, b \in Names, at \in AttrSets : AddE(a, b, at)
        \/ \E a, b \in Names : DelE(a, b)
        \/ \E n \in DOMAIN nd, x \in AttrNames, v \in AttrVals : SetN(n, x, v)
        \/ \E a, b \in DOMAIN nd, x \in AttrNames, v \in AttrVals : Present(a, b) /\ SetE(a, b, x, v)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* refinement
AbsEdges == {IF t = "U" THEN Norm(e) ELSE e : e \in DOMAIN ed}
Abs == [t |-> t, na |-> nd,
        ea |-> [e \in AbsEdges |-> IF e \in DOMAIN ed THEN ed[e] ELSE ed[<<e[2], e[1]>>]]]
ADT == INSTANCE GraphADT WITH g <- Abs
Refines == ADT!Spec

\* all views show the graph Abs
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
ViewsAgree ==
    /\ DOMAIN nb = DOMAIN nd
    /\ Cardinality(AbsEdges) = Cardinality(DOMAIN ed)
    /\ \A n \in DOMAIN nd, m \in DOMAIN nd :
          Count(nb[n], m) = IF <<n, m>> \in Arcs(Abs) THEN Multiplicity(Abs, n, m) ELSE 0
    /\ t = "D" => /\ DOMAIN inb = DOMAIN nd
                  /\ \A n \in DOMAIN nd, m \in DOMAIN nd :
                        Count(inb[n], m) = IF <<m, n>> \in Edges(Abs) THEN 1 ELSE 0
    /\ \A n \in DOMAIN nd : Len(nb[n]) + (IF t = "D" THEN Len(inb[n]) ELSE 0) = Degree(Abs, n)
=============================================================================
