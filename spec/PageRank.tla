------------------------------ MODULE PageRank ------------------------------
(* Graph.page_rank: the ranks are recomputed node by node, in place, until    *)
(* their total change is small or the iterations are used up.  Ranks are      *)
(* integers in units of 1/Scale, D is the damping factor in percent; the      *)
(* rounding error of a step is at most n units.  C25                          *)
EXTENDS Instances
CONSTANTS Sizes, Ds, Scale, Loops, Rounds
VARIABLES I, pc, v, r, diff, old, round
vars == <<I, pc, v, r, diff, old, round>>
N == 1..I.n
A == I.E
Out(w) == Cardinality({a \in A : a[1] = w})
Into(w) == {a[1] : a \in {b \in A : b[2] = w}}
Abs(x) == IF x < 0 THEN -x ELSE x
Init == /\ \E n \in Sizes, d \in Ds : \E E \in SUBSET AllPairs(n, "D", Loops) : I = [n |-> n, E |-> E, d |-> d]
        /\ pc = "start" /\ v = 1 /\ r = NoFn /\ diff = 0 /\ old = -1 /\ round = 0
Begin == /\ pc = "start" /\ r' = [w \in N |-> Scale \div I.n]
         /\ pc' = (IF I.n = 0 THEN "done" ELSE "run") /\ UNCHANGED <<I, v, diff, old, round>>
Rhs(w) == ((100 - I.d) * (Scale \div 100)) \div I.n
          + SumOver(Into(w), LAMBDA x : (I.d * r[x]) \div (100 * Out(x)))
Node1 == /\ pc = "run" /\ v <= I.n
         /\ diff' = diff + Abs(r[v] - Rhs(v)) /\ r' = [r EXCEPT ![v] = Rhs(v)]
         /\ v' = v + 1 /\ UNCHANGED <<I, pc, old, round>>
EndRound == /\ pc = "run" /\ v > I.n
            /\ pc' = IF diff <= I.n \/ round >= Rounds THEN "done" ELSE "run"
            /\ old' = diff /\ diff' = 0 /\ v' = 1 /\ round' = round + 1 /\ UNCHANGED <<I, r>>
Next == Begin \/ Node1 \/ EndRound
Spec == Init /\ [][Next]_vars
Correct == pc = "done" =>
    /\ round < Rounds
    /\ \A w \in N : Abs(r[w] - Rhs(w)) <= 2 * I.n * I.n
    /\ \A w \in N : r[w] >= ((100 - I.d) * (Scale \div 100)) \div I.n - I.n
    \* the ranks sum to 1 exactly if no node lacks outgoing arcs
    /\ (I.n > 0 /\ \A w \in N : Out(w) > 0) =>
          Abs(SumOver(N, LAMBDA w : r[w]) - Scale) <= (2 * I.n * I.n * 100) \div (100 - I.d) + I.n
EmitInst == pc = "start" => Instance("D", I.n, I.E, NoFn, NoFn, <<>>, "pagerank", [d |-> I.d])
=============================================================================
