----------------------------- MODULE TraceRandom -----------------------------
(* Checks graphs made by gimpy.Graph.random against RandomGraphs (C27).  Each *)
(* event has the parameters and the graphs made from them, nodes 0..N-1.      *)
(* Positions come as hundredths (xy) and exactly (x).                         *)
EXTENDS RandomGraphs, TLC, Json, IOUtils

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l
Chk(name, b) == IF ~b THEN {<<"C27", name>>} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Root(_, _, _)
\* the largest r with r * r <= x, between a and b
Root(x, a, b) == IF a = b THEN a ELSE LET c == (a + b + 1) \div 2 IN IF c * c <= x THEN Root(x, c, b) ELSE Root(x, a, c - 1)
AbsV(x) == IF x < 0 THEN -x ELSE x
\* hundredths of the distance of nodes a and b
Apart(r, a, b) == LET dx == r.xy[a + 1][1] - r.xy[b + 1][1]
                     dy == r.xy[a + 1][2] - r.xy[b + 1][2]
                 IN Root(dx * dx + dy * dy, 0, 9000)
Arcs0(q, r) == {IF q.t = "U" THEN Norm(<<e[1] + 1, e[2] + 1>>) ELSE <<e[1] + 1, e[2] + 1>> : e \in SetOf(r.e)}
JoinedTo(q, r, a) == {e[2] : e \in {e \in SetOf(r.e) : e[1] = a}} \cup (IF q.t = "U" THEN {e[1] : e \in {e \in SetOf(r.e) : e[2] = a}} ELSE {})
Params(q) == [N |-> q.N, t |-> q.t, mode |-> q.mode, lo |-> q.lo, hi |-> q.hi, d |-> q.d, par |-> q.par = 1]
Right(q, r) ==
    LET E == Arcs0(q, r)
        sc == IF q.mode = "degree" THEN q.scc ELSE 1
        N == 0..(q.N - 1)
        ds == TLCEval([a \in N |-> [b \in N |-> sc * Apart(r, a, b)]])
        nodes == Len(r.n) = q.N /\ SetOf(r.n) = N
    IN IF r.r # "ok" THEN Chk("random ended with " \o r.r, FALSE) ELSE
       IF ~nodes THEN Chk("nodes 0 to n-1", FALSE) ELSE
       Chk("edges between different nodes, each once", /\ Len(r.e) = Cardinality(E) /\ Proper(q.t, q.N, E))
       \cup Chk("attributes that were given", r.att = 1)
       \cup Chk("arguments are not changed", r.args = 1)
       \cup Chk("adjacency and attributes of its own for every element", r.own = 1)
       \cup Chk("a label equal to the cost exactly if asked for",
                \A e \in SetOf(r.e) : e[4] = IF q.lab = 1 THEN e[3] ELSE NA)
       \cup (IF q.eu = 0 THEN
               Chk("no two arcs between the same nodes", NoTwo(q.t, q.par = 1, E))
               \cup Chk("at most the upper bound of edges per tail", q.mode = "degree" => Bounded(q.t, q.N, q.hi, E))
               \cup Chk("complete for density 1, empty for density 0", q.mode = "density" => Dense(q.t, q.par = 1, q.N, q.d, E))
               \cup Chk("costs within the range", \A e \in SetOf(r.e) : IF q.lr = <<>> THEN e[3] = NA ELSE e[3] >= q.lr[1] /\ e[3] <= q.lr[2])
             ELSE
               Chk("positions in the square", \A i \in DOMAIN r.xy : \A j \in {1, 2} : r.xy[i][j] >= 0 /\ r.xy[i][j] <= 100 * q.sc)
               \cup Chk("costs are rounded distances", \A e \in SetOf(r.e) :
                        (e[3] # NA \/ q.mode = "degree") => AbsV(ds[e[1]][e[2]] - 100 * e[3]) <= 50 + 3 * sc)
               \cup Chk("complete for density 1, empty for density 0",
                        q.mode = "density" => Dense(q.t, q.par = 1, q.N, q.d, E) /\ NoTwo(q.t, q.par = 1, E))
               \cup Chk("random neighbors: at most the upper bound of edges per tail",
                        (q.mode = "degree" /\ q.sel = "random") => Bounded(q.t, q.N, q.hi, E) /\ NoTwo(q.t, q.par = 1, E))
               \cup Chk("the closest neighbors", (q.mode = "degree" /\ q.sel = "closest") =>
                    LET gap == 100 + 6 * sc IN
                    \A a \in N : LET J == JoinedTo(q, r, a) IN
                      /\ \A x \in N \ (J \cup {a}) : Cardinality({y \in N \ {a} : ds[a][y] <= ds[a][x] + gap}) > q.lo
                      /\ q.t = "D" => \A y \in J : Cardinality({z \in N \ {a} : ds[a][z] < ds[a][y] - gap}) <= q.hi))
\* the same graph
Same(r, s) == SetOf(r.n) = SetOf(s.n) /\ SetOf(r.e) = SetOf(s.e) /\ r.x = s.x
\* several seeds and ten nodes: what is drawn hardly ever comes out the same
Rich(ev) == ev.rich = 1 /\ \A i \in DOMAIN ev.runs : ev.runs[i].r = "ok"
Judge(ev) ==
    UNION {Right(ev.p, ev.runs[i]) : i \in DOMAIN ev.runs}
    \cup Chk("the same seed gives the same graph",
             \A i, j \in DOMAIN ev.runs : (ev.seeds[i] = ev.seeds[j] /\ ev.runs[i].r = "ok" /\ ev.runs[j].r = "ok") => Same(ev.runs[i], ev.runs[j]))
    \cup Chk("the seed matters",
             Rich(ev) => \E i, j \in DOMAIN ev.runs : ~Same(ev.runs[i], ev.runs[j]))
    \cup Chk("edges are drawn", Rich(ev) => \A i \in DOMAIN ev.runs : ev.runs[i].e # <<>>)
    \cup Chk("costs are drawn",
             (Rich(ev) /\ ev.p.eu = 0 /\ Len(ev.p.lr) = 2 /\ ev.p.lr[1] # ev.p.lr[2]) =>
                 Cardinality(UNION {{e[3] : e \in SetOf(ev.runs[i].e)} : i \in DOMAIN ev.runs}) > 1)
    \cup Chk("parallel arcs occur where they are allowed",
             (Rich(ev) /\ ev.p.t = "D" /\ ev.p.par = 1) => \E i \in DOMAIN ev.runs : ~NoTwo("D", FALSE, Arcs0(ev.p, ev.runs[i])))
\* reading the object after a call did not come to an end or failed
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
TraceInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET f == IF Crashed(Trace[l]) THEN Crash(Trace[l]) ELSE Judge(Trace[l]) IN f # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(f)))
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
