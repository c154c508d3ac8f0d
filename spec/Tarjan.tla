------------------------------- MODULE Tarjan -------------------------------
(* Graph.tarjan / strong_connect, also run again after the graph was changed  *)
(* (labels and indices of the earlier run are still there).  C09              *)
EXTENDS Instances
CONSTANTS Sizes, Loops, Again
VARIABLES I, pc, frames, index, low, stack, comp, idx, k, num, run
vars == <<I, pc, frames, index, low, stack, comp, idx, k, num, run>>
N == 1..I.n
E == IF run = 1 THEN I.E ELSE I.E2
Nb(v) == {a[2] : a \in {b \in E : b[1] = v}}
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Top == frames[Len(frames)]
OnStack(v) == \E i \in DOMAIN stack : stack[i] = v

Init ==
    /\ \E n \in Sizes : \E A \in SUBSET AllPairs(n, "D", Loops) :
        \E B \in IF Again THEN SUBSET AllPairs(n, "D", FALSE) ELSE {A} :
          I = [n |-> n, E |-> A, E2 |-> B]
    /\ pc = "start" /\ frames = <<>> /\ index = NoFn /\ low = NoFn /\ stack = <<>> /\ comp = NoFn
    /\ idx = 0 /\ k = 0 /\ num = 0 /\ run = 1
Begin == /\ pc = "start" /\ pc' = "run"
         /\ index' = NoFn /\ idx' = 0 /\ k' = 0 /\ num' = 0 /\ stack' = <<>>
         /\ UNCHANGED <<I, frames, low, comp, run>>
Open(v, fr) == /\ index' = Set(index, v, idx) /\ low' = Set(low, v, idx) /\ idx' = idx + 1
               /\ stack' = Append(stack, v) /\ frames' = Append(fr, [v |-> v, left |-> Nb(v), back |-> 0])
Root == /\ pc = "run" /\ frames = <<>>
        /\ \E v \in N \ DOMAIN index : Open(v, <<>>)
        /\ UNCHANGED <<I, pc, comp, k, num, run>>
\* one neighbor
Step == /\ pc = "run" /\ frames # <<>> /\ Top.back = 0 /\ Top.left # {}
        /\ \E m \in Top.left :
             LET fr == [frames EXCEPT ![Len(frames)].left = @ \ {m}] IN
             IF m \notin DOMAIN index
             THEN Open(m, [fr EXCEPT ![Len(fr)].back = m])
             ELSE /\ frames' = fr
                  /\ low' = IF OnStack(m) THEN [low EXCEPT ![Top.v] = MinOf(@, index[m])] ELSE low
                  /\ UNCHANGED <<index, idx, stack>>
        /\ UNCHANGED <<I, pc, comp, k, num, run>>
\* back from a recursive call
Return == /\ pc = "run" /\ frames # <<>> /\ Top.back # 0
          /\ low' = [low EXCEPT ![Top.v] = MinOf(@, low[Top.back])]
          /\ frames' = [frames EXCEPT ![Len(frames)].back = 0]
          /\ UNCHANGED <<I, pc, index, stack, comp, idx, k, num, run>>
Close1 == /\ pc = "run" /\ frames # <<>> /\ Top.back = 0 /\ Top.left = {}
          /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
          /\ IF low[Top.v] = index[Top.v]
             THEN LET i == CHOOSE j \in DOMAIN stack : stack[j] = Top.v
                      members == {stack[j] : j \in i..Len(stack)} IN
                  /\ comp' = [x \in DOMAIN comp \cup members |-> IF x \in members THEN k ELSE comp[x]]
                  /\ stack' = SubSeq(stack, 1, i - 1) /\ k' = k + 1 /\ num' = k + 1
             ELSE UNCHANGED <<comp, stack, k, num>>
          /\ UNCHANGED <<I, pc, index, low, idx, run>>
End == /\ pc = "run" /\ frames = <<>> /\ DOMAIN index = N /\ pc' = "done"
       /\ UNCHANGED <<I, frames, index, low, stack, comp, idx, k, num, run>>
Rerun == /\ pc = "done" /\ run = 1 /\ Again /\ pc' = "start" /\ run' = 2
         /\ UNCHANGED <<I, frames, index, low, stack, comp, idx, k, num>>
Next == Begin \/ Root \/ Step \/ Return \/ Close1 \/ End \/ Rerun
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc = "done")
Correct == pc = "done" =>
    LET Cs == StrongComponents(N, E) IN
    /\ stack = <<>> /\ num = Cardinality(Cs)
    /\ {comp[v] : v \in N} = 0..(Cardinality(Cs) - 1)
    /\ \A K \in Cs : \A v, w \in K : comp[v] = comp[w]
\* what is on the stack reaches its top
StackInv == pc = "run" => \A i \in DOMAIN stack : index[stack[i]] >= i - 1
EmitInst == (pc = "start" /\ run = 1) =>
    Instance("D", I.n, I.E, NoFn, NoFn, <<>>, "strong", [direct |-> 0, again |-> IF Again THEN EdgeRows(I.E2, NoFn, NoFn) ELSE <<>>])
=============================================================================
