------------------------------ MODULE Hamilton ------------------------------
(* Graph.hamiltonian: depth-first extension of a path with backtracking; the  *)
(* marks of visited nodes are taken back on the way.  Neighbors in any order. *)
(* C26                                                                        *)
EXTENDS Instances
CONSTANTS Sizes, Kinds, Loops, Dests
VARIABLES I, pc, path, rest, seen, pred
vars == <<I, pc, path, rest, seen, pred>>
N == 1..I.n
Arc == Walk(I.t, I.E)
Init == /\ \E n \in Sizes, t \in Kinds, d \in Dests : \E E \in SUBSET AllPairs(n, t, Loops) :
             d <= n /\ I = [n |-> n, t |-> t, E |-> E, dst |-> d]
        /\ pc = "start" /\ path = <<1>> /\ rest = <<>> /\ seen = {} /\ pred = NoFn
Top == path[Len(path)]
Hit == Len(path) = I.n /\ (I.dst = 0 \/ Top = I.dst)
Enter == /\ pc \in {"start", "enter"}
         /\ IF Hit THEN pc' = "true" /\ UNCHANGED <<rest, seen>>
            ELSE /\ pc' = "run" /\ seen' = seen \cup {Top}
                 /\ rest' = Append(rest, {a[2] : a \in {b \in Arc : b[1] = Top}})
         /\ UNCHANGED <<I, path, pred>>
Try == /\ pc = "run" /\ rest[Len(rest)] # {}
       /\ \E m \in rest[Len(rest)] :
            /\ rest' = [rest EXCEPT ![Len(rest)] = @ \ {m}]
            /\ IF m \in seen THEN UNCHANGED <<pc, path, pred>>
               ELSE /\ path' = Append(path, m) /\ pc' = "enter"
                    /\ pred' = [v \in DOMAIN pred \cup {m} |-> IF v = m THEN Top ELSE pred[v]]
       /\ UNCHANGED <<I, seen>>
Back == /\ pc = "run" /\ rest[Len(rest)] = {}
        /\ IF Len(path) = 1 THEN pc' = "false" /\ UNCHANGED <<path, rest, seen>>
           ELSE /\ path' = SubSeq(path, 1, Len(path) - 1) /\ rest' = SubSeq(rest, 1, Len(rest) - 1)
                /\ seen' = seen \ {Top} /\ UNCHANGED pc
        /\ UNCHANGED <<I, pred>>
Next == Enter \/ Try \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"true", "false"})
\* the marked nodes are those of the path
Marks == pc = "run" => seen = {path[q] : q \in DOMAIN path} /\ Simple(path)
Correct == /\ pc \in {"true", "false"} => (pc = "true") = HamPath(N, Arc, 1, I.dst)
           /\ pc = "start" => HamPathTo(N, Arc, 1, I.dst) = HamPath(N, Arc, 1, I.dst)
           /\ pc = "true" => \A q \in 2..Len(path) : pred[path[q]] = path[q - 1]
EmitInst == pc = "start" => Instance(I.t, I.n, I.E, NoFn, NoFn, <<>>, "ham", [src |-> 1, dst |-> I.dst])
=============================================================================
