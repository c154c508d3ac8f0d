----------------------------- MODULE Components -----------------------------
(* Graph.label_components: forget all labels, then one search with a new      *)
(* number from every node without a label.  Labels may be left over from an   *)
(* earlier run, another algorithm or the user, and the graph may be changed   *)
(* and labelled again.  C08                                                   *)
EXTENDS Instances
CONSTANTS Sizes, Loops, Leftover
VARIABLES I, pc, label, num, front
vars == <<I, pc, label, num, front>>
N == 1..I.n
Nb(v) == {a[2] : a \in {b \in Sym(I.E) : b[1] = v}}
Init ==
    /\ \E n \in Sizes : \E A \in SUBSET AllPairs(n, "U", Loops), lab \in [1..n -> Leftover \cup {NA}] :
          I = [n |-> n, E |-> A] /\ label = lab
    /\ pc = "start" /\ num = 7 /\ front = {}
Begin == /\ pc = "start" /\ pc' = "scan" /\ num' = 0 /\ label' = [v \in N |-> NA] /\ UNCHANGED <<I, front>>
Scan == /\ pc = "scan"
        /\ \E v \in N : /\ label[v] = NA
                        /\ front' = {v} /\ label' = [label EXCEPT ![v] = num] /\ pc' = "search"
        /\ UNCHANGED <<I, num>>
Search == /\ pc = "search" /\ front # {}
          /\ \E v \in front :
               LET new == {m \in Nb(v) : label[m] # num} IN
               /\ label' = [x \in N |-> IF x \in new THEN num ELSE label[x]]
               /\ front' = (front \ {v}) \cup new
          /\ UNCHANGED <<I, pc, num>>
Counted == pc = "search" /\ front = {} /\ num' = num + 1 /\ pc' = "scan" /\ UNCHANGED <<I, label, front>>
End == pc = "scan" /\ (\A v \in N : label[v] # NA) /\ pc' = "done" /\ UNCHANGED <<I, label, num, front>>
Change == /\ pc = "done" /\ num < 7
          /\ \E e \in AllPairs(I.n, "U", FALSE) : I' = [I EXCEPT !.E = IF e \in @ THEN @ \ {e} ELSE @ \cup {e}]
          /\ pc' = "start" /\ num' = 7 + num /\ UNCHANGED <<label, front>>
Next == Begin \/ Scan \/ Search \/ Counted \/ End \/ Change
Spec == Init /\ [][Next]_vars
Correct == pc = "done" =>
    LET Cs == {Component(I.E, v) : v \in N} IN
    /\ num = Cardinality(Cs) /\ {label[v] : v \in N} = 0..(num - 1)
    /\ \A v, w \in N : (label[v] = label[w]) = (w \in Component(I.E, v))
EmitInst == (pc = "start" /\ num = 7) =>
    Instance("U", I.n, I.E, NoFn, NoFn, <<>>, "label_components", [left |-> label])
=============================================================================
