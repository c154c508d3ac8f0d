----------------------------- MODULE DepthFirst -----------------------------
(* Graph.dfs: nested calls as a stack of frames, counters passed on from one  *)
(* root to the next; then the searches of the transposed graph by decreasing  *)
(* finish time (Kosaraju).  C09, C10                                          *)
EXTENDS Instances
CONSTANTS Sizes, Kinds, Loops, Transposed
VARIABLES I, pc, frames, disc, fin, pred, order, dc, fc, comp, k
vars == <<I, pc, frames, disc, fin, pred, order, dc, fc, comp, k>>

N == 1..I.n
Fwd == Walk(I.t, I.E)
Nb(v)  == {a[2] : a \in {b \in Fwd : b[1] = v}}
InNb(v) == {a[1] : a \in {b \in I.E : b[2] = v}}
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Top == frames[Len(frames)]
Pop == SubSeq(frames, 1, Len(frames) - 1)

Init ==
    /\ \E n \in Sizes, t \in Kinds : \E E \in SUBSET AllPairs(n, t, Loops) : I = [n |-> n, t |-> t, E |-> E]
    /\ pc = "start" /\ frames = <<>> /\ disc = NoFn /\ fin = NoFn /\ pred = NoFn /\ order = <<>>
    /\ dc = 0 /\ fc = 1 /\ comp = NoFn /\ k = 0

Begin == pc = "start" /\ pc' = "forward" /\ UNCHANGED <<I, frames, disc, fin, pred, order, dc, fc, comp, k>>

\* --- forward
Enter(v) == /\ dc' = dc + 1 /\ disc' = Set(disc, v, dc + 1)
Root == /\ pc = "forward" /\ frames = <<>>
        /\ \E v \in N \ DOMAIN disc :
              /\ Enter(v) /\ frames' = <<[v |-> v, left |-> Nb(v)]>>
        /\ UNCHANGED <<I, pc, fin, pred, order, fc, comp, k>>
Child == /\ pc = "forward" /\ frames # <<>> /\ Top.left # {}
         /\ \E m \in Top.left :
              LET fr == [frames EXCEPT ![Len(frames)].left = @ \ {m}] IN
              IF m \in DOMAIN disc THEN frames' = fr /\ UNCHANGED <<disc, dc, pred>>
              ELSE /\ Enter(m) /\ pred' = Set(pred, m, Top.v)
                   /\ frames' = Append(fr, [v |-> m, left |-> Nb(m)])
         /\ UNCHANGED <<I, pc, fin, order, fc, comp, k>>
Leave == /\ pc = "forward" /\ frames # <<>> /\ Top.left = {}
         /\ fin' = Set(fin, Top.v, fc) /\ fc' = fc + 1 /\ order' = <<Top.v>> \o order
         /\ frames' = Pop
         /\ UNCHANGED <<I, pc, disc, pred, dc, comp, k>>
Forward == /\ pc = "forward" /\ frames = <<>> /\ DOMAIN disc = N
           /\ pc' = IF Transposed /\ I.t = "D" THEN "backward" ELSE "done"
           /\ UNCHANGED <<I, frames, disc, fin, pred, order, dc, fc, comp, k>>

\* --- transposed, one component number per root
Undone == {v \in N : v \notin DOMAIN comp}
Root2 == /\ pc = "backward" /\ frames = <<>> /\ Undone # {}
         /\ LET v == CHOOSE w \in Undone : \A x \in Undone : fin[x] <= fin[w] IN
            /\ comp' = Set(comp, v, k) /\ frames' = <<[v |-> v, left |-> InNb(v)]>>
         /\ UNCHANGED <<I, pc, disc, fin, pred, order, dc, fc, k>>
Child2 == /\ pc = "backward" /\ frames # <<>> /\ Top.left # {}
          /\ \E m \in Top.left :          \* the code prefers late finish times; any order will do
              LET fr == [frames EXCEPT ![Len(frames)].left = @ \ {m}] IN
              IF m \in DOMAIN comp THEN frames' = fr /\ UNCHANGED comp
              ELSE comp' = Set(comp, m, k) /\ frames' = Append(fr, [v |-> m, left |-> InNb(m)])
          /\ UNCHANGED <<I, pc, disc, fin, pred, order, dc, fc, k>>
Leave2 == /\ pc = "backward" /\ frames # <<>> /\ Top.left = {}
          /\ frames' = Pop /\ k' = IF Len(frames) = 1 THEN k + 1 ELSE k
          /\ UNCHANGED <<I, pc, disc, fin, pred, order, dc, fc, comp>>
Backward == /\ pc = "backward" /\ frames = <<>> /\ Undone = {} /\ pc' = "done"
            /\ UNCHANGED <<I, frames, disc, fin, pred, order, dc, fc, comp, k>>

Next == Begin \/ Root \/ Child \/ Leave \/ Forward \/ Root2 \/ Child2 \/ Leave2 \/ Backward
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
-----------------------------------------------------------------------------
\* after every outermost call
Between == (pc = "forward" /\ frames = <<>>) =>
    /\ {disc[v] : v \in DOMAIN disc} = 1..dc /\ Cardinality(DOMAIN disc) = dc
    /\ {fin[v] : v \in DOMAIN disc} = 1..(fc - 1) /\ fc = dc + 1
    /\ DepthFirstNumbering(DOMAIN disc, Fwd, disc, fin)
    /\ \A v \in DOMAIN disc : ParentOf(DOMAIN disc, disc, fin, v) = IF v \in DOMAIN pred THEN pred[v] ELSE 0
    /\ \A v \in DOMAIN pred : <<pred[v], v>> \in Fwd
    \* closed under reachability
    /\ \A v \in DOMAIN disc : Reach(Fwd, v) \subseteq DOMAIN disc
    /\ Len(order) = dc /\ \A i \in 1..(dc - 1) : fin[order[i]] > fin[order[i + 1]]
    /\ Acyclic(Fwd, N) => \A a \in Fwd : (a[1] \in DOMAIN disc /\ a[2] \in DOMAIN disc) => fin[a[1]] > fin[a[2]]
Kosaraju == (pc = "done" /\ Transposed /\ I.t = "D") =>
    LET Cs == StrongComponents(N, I.E) IN
    /\ {comp[v] : v \in N} = 0..(Cardinality(Cs) - 1) /\ k = Cardinality(Cs)
    /\ \A K \in Cs : \A v, w \in K : comp[v] = comp[w]
EmitInst == pc = "start" =>
    Instance(I.t, I.n, I.E, NoFn, NoFn, <<>>, IF Transposed THEN "kosaraju" ELSE "dfs", [x |-> 0])
=============================================================================
