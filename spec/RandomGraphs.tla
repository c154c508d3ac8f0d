---------------------------- MODULE RandomGraphs -----------------------------
(* Which graphs may come out of random.  Parameters: N nodes, named 1..N      *)
(* here; t the type; mode "degree" with bounds lo and hi or "density" with d  *)
(* in percent; par: both arcs between two nodes are allowed.                  *)
EXTENDS Graphs
Pairs(N) == {a \in (1..N) \X (1..N) : a[1] # a[2]}
\* an undirected edge is a pair in ascending order
Proper(t, N, E) == \A e \in E : e \in Pairs(N) /\ (t = "U" => e[1] < e[2])
NoTwo(t, par, E) == (t = "D" /\ ~par) => \A e \in E : <<e[2], e[1]>> \notin E
\* at most hi edges per tail; if the tails are not known: some choice of tails is possible
Bounded(t, N, hi, E) ==
    IF t = "D" THEN \A v \in 1..N : Cardinality({e \in E : e[1] = v}) <= hi
    ELSE \A W \in SUBSET (1..N) : Cardinality({e \in E : e[1] \in W /\ e[2] \in W}) <= hi * Cardinality(W)
Dense(t, par, N, d, E) ==
    /\ d = 0 => E = {}
    /\ d = 100 => IF t = "D" /\ par THEN E = Pairs(N)
                  ELSE \A e \in Pairs(N) : e \in E \/ <<e[2], e[1]>> \in E
Possible(p, E) == /\ Proper(p.t, p.N, E) /\ NoTwo(p.t, p.par, E)
                  /\ IF p.mode = "degree" THEN Bounded(p.t, p.N, p.hi, E) ELSE Dense(p.t, p.par, p.N, p.d, E)
=============================================================================
