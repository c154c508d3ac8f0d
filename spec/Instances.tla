----------------------------- MODULE Instances -----------------------------
(* Inputs of the algorithm models: all graphs of a small scope.  A model      *)
(* checks its algorithm on every one of them and prints it (EmitInst), so     *)
(* that the harness can run the real method on the very same input.           *)
EXTENDS Graphs, TLC, Json

AllPairs(n, t, loops) ==
    {a \in (1..n) \X (1..n) : (t = "U" => a[1] <= a[2]) /\ (loops \/ a[1] # a[2])}
\* one orientation of each pair: networks without antiparallel arcs
AntiparallelFreeSets(n) == {E \in SUBSET AllPairs(n, "D", FALSE) : AntiparallelFree(E)}
Walk(t, E) == IF t = "U" THEN Sym(E) ELSE E
KeyOf(t, a) == IF t = "U" THEN Norm(a) ELSE a
WalkCost(t, E, c) == [a \in Walk(t, E) |-> c[KeyOf(t, a)]]

\* <<a, b, cost, capacity>>, NA where there is none
EdgeRows(E, c, u) ==
    LET s == SetToSeq(E) IN
    [i \in DOMAIN s |-> <<s[i][1], s[i][2], IF s[i] \in DOMAIN c THEN c[s[i]] ELSE NA,
                          IF s[i] \in DOMAIN u THEN u[s[i]] ELSE NA>>]
NoFn == [x \in {} |-> 0]
Instance(t, n, E, c, u, b, op, p) ==
    PrintT("I|" \o ToJson([t |-> t, n |-> n, e |-> EdgeRows(E, c, u), d |-> b, op |-> op, p |-> p]))

\* sets of costs for configuration files, which cannot contain negative numbers
CostsA == {-2, -1, 0, 3}
CostsB == {-1, 1}
CostsC == {-1, 0, 2}
CostsD == {-2, 1}
DemandsA == {-1, 0, 1}
DemandsB == {-2, -1, 0, 1, 2}
=============================================================================
