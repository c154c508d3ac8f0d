----------------------------- MODULE TraceShow ------------------------------
(* Checks which pictures a recorded execution has drawn (C31).  The state is  *)
(* Display's for every graph of the session: the mode its owner has chosen,   *)
(* with the abstract graph and the layout.  Pictures are the texts Graphviz   *)
(* was given, read with Dot; a node is marked if its color is red.  A call is *)
(* recorded together with the same call on a copy that is not displayed.      *)
EXTENDS DotSays, Json, IOUtils

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S
Chk(name, b) == IF PROP \in {"C31", "ALL"} /\ ~b THEN {<<"C31", name>>} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
NoAttrs == [x \in AttrNames |-> NA]
RED == <<114, 101, 100>>
COLOR == <<99, 111, 108, 111, 114>>
Windows == {"PIL", "matplotlib", "xdot"}
Eff(a, m) == IF a = "none" THEN m ELSE a
\* Graphviz may not be there, or may fail: then there is no picture, and a failure may end the call
MISSING == "nosuchprogram"
FAILING == "failing"
Fails(o, e) == o.layout = FAILING /\ e \notin {"off", "xdot"}
\* xdot draws by itself
There(o, e) == e = "xdot" \/ o.layout \notin {MISSING, FAILING}

Shows(r, g, nm) == r.ok /\ SaysType(r.p, g) /\ SaysNodes(r.p, g, nm) /\ SaysEdges(r.p, g, nm)
Marked(r, g, nm) == {n \in Nodes(g) : LET at == TheNode(r.p, g, nm, n).at
                                      IN \E i \in DOMAIN at : Means(at[i][1], COLOR) /\ Means(at[i][2], RED)}
\* nodes below n in a tree
RECURSIVE Subtree(_, _)
Subtree(g, n) == {n} \cup UNION {Subtree(g, m) : m \in {e[2] : e \in {f \in Edges(g) : f[1] = n}}}
\* what always draws something when it is to be seen
Draws(ev, g) == CASE ev.what \in {"cycle"} -> FALSE
                  [] ev.what \in {"label"} -> Nodes(g) # {}
                  [] ev.what \in {"kruskal"} -> Edges(g) # {}
                  [] ev.what \in {"simplex", "nsimplex"} -> ev.solved = 1
                  [] OTHER -> TRUE
Modes(o, ev) == Chk("the display mode after " \o ev.what \o " is as before", ev.after = o.mode)
Drawn(o, ev, e, nm, need) ==
    LET rs == TLCEval([i \in DOMAIN ev.texts |-> Read(ev.texts[i])]) IN
    Chk(ev.what \o " draws nothing with display off", e = "off" => ev.count = 0)
    \cup Chk(ev.what \o " draws pictures", (e # "off" /\ need /\ There(o, e)) => ev.own > 0)
    \cup Chk("a picture drawn by " \o ev.what \o " shows the graph", \A i \in DOMAIN rs : Shows(rs[i], o.g, nm))
    \cup Chk("pictures are made by the program of the layout", \A p \in SetOf(ev.progs) : p = o.layout)
    \cup Chk("pictures have the format asked for", \A p \in SetOf(ev.fmts) : p = ev.fmt)
    \cup Chk("the file holds the last picture", ev.file = ev.last)
    \cup Chk("each picture is shown in a window of the mode, and none otherwise",
             ev.wins = IF e \in Windows THEN [i \in 1..ev.count |-> <<e, i>>] ELSE <<>>)
Left(ev) == Chk("no temporary file is left by " \o ev.what, ev.left = 0)
Call(o, ev, nm) ==
    LET e == Eff(ev.arg, o.mode)
        rs == TLCEval([i \in DOMAIN ev.texts |-> Read(ev.texts[i])])
    IN Chk(ev.what \o " ends as without pictures", (ev.r = "ok" /\ ev.rq = "ok") \/ Fails(o, e))
       \cup Left(ev)
       \cup (IF ev.r # "ok" THEN {} ELSE
             Modes(o, ev) \cup Drawn(o, ev, e, nm, Draws(ev, o.g))
             \cup Chk("the result of " \o ev.what \o " is the same without pictures", ev.res = ev.resq)
             \cup Chk(ev.what \o " prints the same without pictures", ev.said = ev.saidq \/ o.layout = MISSING)
             \cup Chk(ev.what \o " leaves the same graph without pictures", ev.dump = ev.dumpq)
             \cup (IF ev.walk = 0 \/ e = "off" \/ ~There(o, e) \/ \E i \in DOMAIN rs : ~Shows(rs[i], o.g, nm) THEN {} ELSE
                   LET ms == [i \in DOMAIN rs |-> Marked(rs[i], o.g, nm)]
                       all == Subtree(o.g, ev.walk)
                   IN Chk("each picture of a traversal highlights one node", \A i \in DOMAIN ms : Cardinality(ms[i]) = 1)
                      \cup Chk("a traversal shows each node once", UNION SetOf(ms) = all /\ Len(ms) = Cardinality(all))))
\* display before, with highlighted nodes, and after
Display(o, ev, nm) ==
    LET rs == TLCEval([i \in DOMAIN ev.texts |-> Read(ev.texts[i])])
        H == SetOf(ev.h)
        there == There(o, o.mode)
        good == Len(rs) = 3 /\ \A i \in 1..3 : Shows(rs[i], o.g, nm)
    IN Left(ev) \cup IF ev.r # "ok" THEN Chk("display ended with " \o ev.r, Fails(o, o.mode))
       ELSE Modes(o, ev) \cup Drawn(o, ev, o.mode, nm, TRUE)
            \cup Chk("display draws one picture", (o.mode # "off" /\ there) => ev.count = 3 /\ good)
            \cup Chk("what is not displayed is not changed", o.mode = "off" => ev.dump = ev.dumpq)
            \cup (IF ~good THEN {} ELSE
                  LET M == Marked(rs[1], o.g, nm)
                  IN Chk("the nodes to be highlighted are", Marked(rs[2], o.g, nm) = M \cup H)
                     \cup Chk("the next picture does not highlight them", Marked(rs[3], o.g, nm) = M \ H))
Write(o, ev, nm) ==
    LET w == [o EXCEPT !.layout = IF ev.lay = "" THEN @ ELSE ev.lay]
    IN
    Left(ev) \cup IF ev.r # "ok" THEN Chk("write ended with " \o ev.r, Fails(w, "file"))
    ELSE Modes(o, ev) \cup Chk("write draws one picture", w.layout \notin {MISSING, FAILING} => ev.count = 1)
         \cup Drawn(w, ev, "file", nm, TRUE)
         \cup Chk("what is written is not changed", ev.dump = ev.dumpq)

With(T, id, o) == [T EXCEPT !.gs = Upd(@, id, o)]
Dead(T) == [T EXCEPT !.dead = TRUE]
Apply(ev, T, r) == IF ev.r # IF r.ok THEN "ok" ELSE "raise" THEN Dead(T) ELSE With(T, ev.g, [T.gs[ev.g] EXCEPT !.g = r.g])
Judge(ev, T) ==
    LET o == T.gs[ev.g]
        N(f, P) == [fails |-> f, T |-> P]
    IN
    CASE ev.op = "add_node" -> N({}, Apply(ev, T, AddNode(o.g, ev.a, NoAttrs)))
      [] ev.op = "del_node" -> N({}, Apply(ev, T, DelNode(o.g, ev.a)))
      [] ev.op = "add_edge" -> N({}, Apply(ev, T, AddEdge(o.g, ev.a, ev.b, NoAttrs)))
      [] ev.op = "del_edge" -> N({}, Apply(ev, T, DelEdge(o.g, ev.a, ev.b)))
      [] ev.op = "weigh" -> N({}, IF ev.r = "ok" THEN T ELSE Dead(T))
      [] ev.op = "mode" -> N(Chk("set_display_mode sets the mode", ev.r = "ok" /\ ev.after = ev.m),
                             IF ev.r = "ok" THEN With(T, ev.g, [o EXCEPT !.mode = ev.m]) ELSE Dead(T))
      [] ev.op = "set_layout" -> N(Chk("set_layout sets the layout", ev.r = "ok" /\ ev.lay = ev.v),
                                   IF ev.r = "ok" THEN With(T, ev.g, [o EXCEPT !.layout = ev.v]) ELSE Dead(T))
      [] ev.op = "show" -> N(Call(o, ev, T.nm), IF ev.r = "ok" THEN T ELSE Dead(T))
      [] ev.op = "highlight" -> N(Display(o, ev, T.nm), IF ev.r = "ok" THEN T ELSE Dead(T))
      [] ev.op = "write" -> N(Write(o, ev, T.nm), IF ev.r = "ok" THEN T ELSE Dead(T))
New(ev, T) == IF ev.r # "ok" THEN Dead(T)
              ELSE With(T, ev.g, [g |-> Empty(ev.t), mode |-> ev.mode, layout |-> ev.lay])
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
NoSession == [dead |-> FALSE, gs |-> NoFun, nm |-> <<>>]
TraceInit == l = 1 /\ S = [sid |-> -1] @@ NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE [sid |-> ev.s] @@ NoSession
           j  == CASE Crashed(ev) -> [fails |-> Crash(ev), T |-> T]
                   [] ~Crashed(ev) /\ ev.op = "tables" -> [fails |-> {}, T |-> [T EXCEPT !.nm = ev.nm]]
                   [] ~Crashed(ev) /\ ev.op # "tables" /\ T.dead -> [fails |-> {}, T |-> T]
                   [] ~Crashed(ev) /\ ev.op = "new" ->
                        [fails |-> Chk("a new graph has the display mode and the layout it is given", ev.r = "ok" /\ ev.after = ev.mode /\ ev.haslay = ev.lay),
                         T |-> New(ev, T)]
                   [] OTHER -> Judge(ev, T)
       IN /\ j.fails # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(j.fails)))
          /\ S' = j.T
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
