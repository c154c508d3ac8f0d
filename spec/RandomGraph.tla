----------------------------- MODULE RandomGraph -----------------------------
(* gimpy.Graph.random, not Euclidean: the generator with its draws as choices.*)
(* What comes out is what RandomGraphs says may come out, and (Missing is     *)
(* checked to be empty by the caller of EmitSet) nothing that may come out is *)
(* out of reach.  C27                                                         *)
EXTENDS RandomGraphs, TLC, Json
CONSTANTS Sizes, Kinds, Modes, Bounds, Densities
VARIABLES p, E, m, k, pc
vars == <<p, E, m, k, pc>>
Params == [N : Sizes, t : Kinds, mode : Modes, hi : Bounds, lo : Bounds, d : Densities, par : BOOLEAN]
Sensible(q) == /\ q.lo <= q.hi
               /\ (q.t = "U" => ~q.par)
               /\ IF q.mode = "degree" THEN q.d = 50 /\ q.N >= 2 ELSE q.lo = 0 /\ q.hi = 0
Init == p \in {q \in Params : Sensible(q)} /\ E = {} /\ m = 1 /\ k = 0 /\ pc = IF p.N = 0 THEN "done" ELSE "tail"
Key(a, b) == IF p.t = "U" THEN Norm(<<a, b>>) ELSE <<a, b>>
Free(a, b) == a # b /\ Key(a, b) \notin E /\ (p.par \/ Key(b, a) \notin E)
\* the number of draws for tail m is chosen
Begin == /\ pc = "tail"
         /\ IF p.mode = "degree" THEN \E x \in p.lo..p.hi : k' = x ELSE k' = 1
         /\ pc' = "draw" /\ UNCHANGED <<p, E, m>>
Step == IF m < p.N THEN m' = m + 1 /\ pc' = "tail" /\ k' = 0 ELSE m' = m /\ pc' = "done" /\ k' = 0
Draw == /\ pc = "draw" /\ p.mode = "degree" /\ UNCHANGED p
        /\ IF k = 0 THEN Step /\ UNCHANGED E
           ELSE /\ k' = k - 1 /\ UNCHANGED <<m, pc>>
                /\ \E n \in 1..p.N : E' = IF Free(m, n) THEN E \cup {Key(m, n)} ELSE E
\* the candidates in turn; each is taken or not, surely so if d is 0 or 100
Final == IF p.t = "D" THEN p.N ELSE m - 1
Flip == /\ pc = "draw" /\ p.mode = "density" /\ UNCHANGED p
        /\ IF k > Final THEN Step /\ UNCHANGED E
           ELSE /\ k' = k + 1 /\ UNCHANGED <<m, pc>>
                /\ \E take \in BOOLEAN : /\ (p.d = 0 => ~take) /\ (p.d = 100 => take)
                                         /\ E' = IF take /\ Free(m, k) THEN E \cup {Key(m, k)} ELSE E
Next == Begin \/ Draw \/ Flip
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
Correct == pc = "done" => Possible(p, E)
EmitOut == pc = "done" => PrintT("I|" \o ToJson([p |-> p, e |-> SetToSeq(E)]))
\* for every choice of parameters, all that may come out (printed once, with the initial states)
EmitAll == (pc \in {"tail", "done"} /\ m = 1 /\ (pc = "done" => p.N = 0)) =>
    PrintT("P|" \o ToJson([p |-> p, count |-> Cardinality({X \in SUBSET Pairs(p.N) : Possible(p, X)})]))
=============================================================================
