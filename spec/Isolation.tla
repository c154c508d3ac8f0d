----------------------------- MODULE Isolation -----------------------------
(* Calls on two graphs in one process.  A call works with a work list and     *)
(* with marks on the nodes; it may stop early, so that something is left in   *)
(* the list, and it leaves its marks.  The next call starts with a list and   *)
(* marks of its own (Fresh): then its result is a function of its graph and   *)
(* its arguments, whatever was called before on this or on another graph.     *)
(* (With Fresh = FALSE, a list kept in a default argument, TLC finds a call   *)
(* with a wrong result.)  C30                                                 *)
EXTENDS Instances
CONSTANTS Size, Calls, Fresh
VARIABLES A, h, left, marks, pc, c, q
vars == <<A, h, left, marks, pc, c, q>>
N == 1..Size
Gs == 1..2
NoCall == [g |-> 0, src |-> 0, dst |-> 0]
\* up to names the second graph is arbitrary and the first has an arc out of node 1
Init == /\ A \in [Gs -> SUBSET AllPairs(Size, "D", FALSE)]
        /\ \E a \in A[1] : a[1] = 1
        /\ h = <<>> /\ left = {} /\ marks = [g \in Gs |-> {}] /\ pc = "idle" /\ c = NoCall /\ q = {}
Start(g, s, d) ==
    /\ pc = "idle" /\ Len(h) < Calls
    /\ c' = [g |-> g, src |-> s, dst |-> d] /\ pc' = "run"
    /\ q' = {s} \cup (IF Fresh THEN {} ELSE left)
    /\ marks' = [marks EXCEPT ![g] = {s} \cup (IF Fresh THEN {} ELSE marks[g])]
    /\ UNCHANGED <<A, h, left>>
End(res) == /\ h' = Append(h, [call |-> c, res |-> res]) /\ left' = q /\ q' = {} /\ pc' = "idle" /\ c' = NoCall
            /\ UNCHANGED <<A, marks>>
Work(v) ==
    /\ pc = "run" /\ v \in q
    /\ IF v = c.dst THEN End({v})
       ELSE LET new == {a[2] : a \in {b \in A[c.g] : b[1] = v}} \ marks[c.g]
            IN /\ q' = (q \ {v}) \cup new
               /\ marks' = [marks EXCEPT ![c.g] = @ \cup new]
               /\ UNCHANGED <<A, h, left, pc, c>>
Done == /\ pc = "run" /\ q = {} /\ End(IF c.dst = 0 THEN marks[c.g] ELSE {})
Next == (\E g \in Gs, s \in N, d \in N \cup {0} : Start(g, s, d)) \/ (\E v \in N : Work(v)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars((\E v \in N : Work(v)) \/ Done)
Expected(k) == LET R == Reach(A[k.g], k.src)
               IN IF k.dst = 0 THEN R ELSE IF k.dst \in R THEN {k.dst} ELSE {}
Correct == \A i \in DOMAIN h : h[i].res = Expected(h[i].call)
SameAgain == \A i, j \in DOMAIN h : h[i].call = h[j].call => h[i].res = h[j].res
Ends == (pc = "run") ~> (pc = "idle")
\* the order in which a call works does not matter: one behaviour per sequence of calls
EmitRun == (pc = "idle" /\ Len(h) = Calls) =>
    PrintT("B|" \o ToJson([n |-> Size, e |-> [g \in Gs |-> EdgeRows(A[g], NoFn, NoFn)], h |-> [i \in DOMAIN h |-> h[i].call]]))
=============================================================================
