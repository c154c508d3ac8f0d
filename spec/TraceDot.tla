------------------------------ MODULE TraceDot -------------------------------
(* Checks the DOT texts of recorded executions (C22) and clusters (C23).  The *)
(* state is, for every graph of the session, the abstract graph (GraphOps),   *)
(* its clusters and its graph attributes; names, keys and values are indices  *)
(* into tables of texts given at the start of the session.  The operations on *)
(* the graph are judged elsewhere (TraceGraph): a session where one of them   *)
(* does not end as specified is not judged any further.                       *)
EXTENDS DotSays, Json, IOUtils

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S
Chk(p, name, b) == IF PROP \in {p, "ALL"} /\ ~b THEN {<<p, name>>} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
Attrs(list) == [x \in AttrNames |-> IF \E i \in DOMAIN list : list[i][1] = x
                                    THEN LET j == CHOOSE i \in DOMAIN list : list[i][1] = x IN list[j][2] ELSE NA]
NoAttrs == [x \in AttrNames |-> NA]
Kept(cl, h) == [i \in DOMAIN cl |-> [cl[i] EXCEPT !.N = @ \cap Nodes(h)]]

\* what a text shows of the object
Judged(ev, o, T) ==
    LET r == TLCEval(Read(ev.text))
        p == r.p
        once == r.ok /\ SaysNodes(p, o.g, T.nm) /\ SaysEdges(p, o.g, T.nm)
        cl == o.cl
        \* what the object says of attributes that algorithms and trees write
        wk == SetOf(ev.wk)
        on == [n \in Nodes(o.g) |-> LET q == SelectSeq(ev.on, LAMBDA y : y[1] = n) IN IF q = <<>> THEN <<>> ELSE q[1][2]]
        oe == [e \in Edges(o.g) |-> LET q == SelectSeq(ev.oe, LAMBDA y : <<y[1], y[2]>> = e) IN IF q = <<>> THEN <<>> ELSE q[1][3]]
        ga == [x \in AttrNames |-> IF x \in T.gz THEN o.ga[x] ELSE NA]
    IN IF ev.r # "ok" THEN Chk("C22", "to_string ended with " \o ev.r, FALSE) \cup Chk("C23", "to_string ended with " \o ev.r, cl = <<>>)
       ELSE IF ~r.ok THEN Chk("C22", "the text is not DOT", FALSE) \cup Chk("C23", "the text is not DOT", cl = <<>>)
       ELSE Chk("C22", "type of the graph", SaysType(p, o.g))
            \cup Chk("C22", "name of the graph", Means(p.name, o.name))
            \cup Chk("C22", "each node once", SaysNodes(p, o.g, T.nm))
            \cup Chk("C22", "each edge once, with its endpoints", SaysEdges(p, o.g, T.nm))
            \cup Chk("C22", "attributes of nodes", once => SaysNodeAttrs(p, o.g, T.nm, T.ks, T.vs, wk, on))
            \cup Chk("C22", "attributes of edges", once => SaysEdgeAttrs(p, o.g, T.nm, T.ks, T.vs, wk, oe))
            \cup Chk("C22", "attributes of the graph", SaysGraphAttrs(p, ga, T.ks, T.vs) /\ NoDefaults(p))
            \cup Chk("C23", "each node and each edge once", once)
            \cup Chk("C23", "the subgraphs have names of their own", SaysClusterNames(p))
            \cup Chk("C23", "one subgraph per cluster, with its nodes, edges and attributes",
                     once => SaysClusters(p, o.g, cl, T.nm, T.ks, T.vs))
            \cup Chk("C23", "what is in no cluster is outside", once => SaysRest(p, o.g, cl, T.nm))

With(T, id, o) == [T EXCEPT !.gs = Upd(@, id, o)]
Dead(T) == [T EXCEPT !.dead = TRUE]
\* an operation on the graph
Apply(ev, T, r) ==
    LET o == T.gs[ev.g] IN
    IF ev.r # IF r.ok THEN "ok" ELSE "raise" THEN Dead(T)
    ELSE With(T, ev.g, [o EXCEPT !.g = r.g, !.cl = Kept(@, r.g)])
Judge(ev, T) ==
    LET o == T.gs[ev.g]
        args == Chk("C23", "arguments are not changed", ev.args = 0)
        N(f, P) == [fails |-> f, T |-> P]
    IN
    CASE ev.op = "add_node" -> N(args, Apply(ev, T, AddNode(o.g, ev.a, Attrs(ev.at))))
      [] ev.op = "del_node" ->
            N(args \cup Chk("C23", "del_node of a node of a cluster ended with " \o ev.r,
                            (ev.a \in Nodes(o.g) /\ \E i \in DOMAIN o.cl : ev.a \in o.cl[i].N) => ev.r = "ok"),
              Apply(ev, T, DelNode(o.g, ev.a)))
      [] ev.op = "add_edge" -> N(args, Apply(ev, T, AddEdge(o.g, ev.a, ev.b, Attrs(ev.at))))
      [] ev.op = "del_edge" -> N(args, Apply(ev, T, DelEdge(o.g, ev.a, ev.b)))
      [] ev.op = "set_node" -> N(args, Apply(ev, T, SetNode(o.g, ev.a, ev.x, ev.v)))
      [] ev.op = "set_edge" -> N(args, Apply(ev, T, SetEdge(o.g, ev.a, ev.b, ev.x, ev.v)))
      [] ev.op = "set_layout" -> N(args, IF ev.r # "ok" THEN Dead(T) ELSE With(T, ev.g, [o EXCEPT !.ga = Upd(@, ev.x, ev.v)]))
      [] ev.op = "cluster" ->
            LET dup == ev.cn # 0 /\ \E i \in DOMAIN o.cl : o.cl[i].cn = ev.cn
                c == [N |-> SetOf(ev.n), at |-> Attrs(ev.at), na |-> Attrs(ev.na), cn |-> ev.cn]
            IN IF dup THEN N(args \cup Chk("C23", "a second cluster of an existing name ended with " \o ev.r, ev.r = "raise"),
                             IF ev.r = "raise" THEN T ELSE Dead(T))
               ELSE N(args \cup Chk("C23", "create_cluster ended with " \o ev.r, ev.r = "ok"),
                      IF ev.r = "ok" THEN With(T, ev.g, [o EXCEPT !.cl = Append(@, c)]) ELSE Dead(T))
      \* attributes of the names in wk are not the model's; the others stay
      [] ev.op = "alg" -> N(args, IF ev.r = "ok" THEN T ELSE Dead(T))
      [] ev.op = "render" -> N(args \cup Judged(ev, o, T), T)
New(ev, T) == IF ev.r # "ok" THEN Dead(T)
              ELSE With(T, ev.g, [g |-> Empty(ev.t), cl |-> <<>>, ga |-> Attrs(ev.at), name |-> ev.name])

\* reading the object after a call did not come to an end or failed
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
NoSession == [dead |-> FALSE, gs |-> NoFun, nm |-> <<>>, ks |-> <<>>, vs |-> <<>>, gz |-> {}]
TraceInit == l = 1 /\ S = [sid |-> -1] @@ NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE [sid |-> ev.s] @@ NoSession
           j  == CASE Crashed(ev) -> [fails |-> Crash(ev), T |-> T]
                   [] ~Crashed(ev) /\ ev.op = "tables" -> [fails |-> {}, T |-> [T EXCEPT !.nm = ev.nm, !.ks = ev.ks, !.vs = ev.vs, !.gz = SetOf(ev.gz)]]
                   [] ~Crashed(ev) /\ ev.op # "tables" /\ T.dead -> [fails |-> {}, T |-> T]
                   [] ~Crashed(ev) /\ ev.op = "new" -> [fails |-> {}, T |-> New(ev, T)]
                   [] OTHER -> Judge(ev, T)
       IN /\ j.fails # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(j.fails)))
          /\ S' = j.T
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
