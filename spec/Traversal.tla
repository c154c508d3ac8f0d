------------------------------ MODULE Traversal ------------------------------
(* The traversal loop of gimpy.Tree and BinaryTree on every tree with nodes   *)
(* 1..n, with a stack or a queue, and print_nodes as a stack machine.  C20    *)
EXTENDS Trees, Json
CONSTANTS Sizes, Kinds
VARIABLES t, how, side, work, out
vars == <<t, how, side, work, out>>
\* all trees: nodes are added in the order of their numbers, so every shape occurs
RECURSIVE Shapes(_, _)
Shapes(k, n) == IF n = 1 THEN {AddRoot(NoTree(k), 1).t}
    ELSE UNION {{r.t : r \in {q \in {AddAt(s, n, p, x) : p \in 1..(n - 1), x \in IF k = "B" THEN {"L", "R"} ELSE {"-"}} : q.ok}}
                  : s \in Shapes(k, n - 1)}
\* work: for traverse a sequence of nodes; for print_nodes of <<node, done>>, done = TRUE: only to be printed
Init == \E k \in Kinds, n \in Sizes : t \in Shapes(k, n)
        /\ how \in {"dfs", "bfs"} \cup (IF k = "B" THEN {"pre", "in", "post"} ELSE {})
        /\ side \in (IF k = "B" THEN {"L", "R"} ELSE {"-"})
        /\ work = (IF how \in {"dfs", "bfs"} THEN <<1>> ELSE <<<<1, FALSE>>>>) /\ out = <<>>
Two(n) == SelectSeq(<<ChildAt(t, n, side), ChildAt(t, n, Other(side))>>, LAMBDA x : x # 0)
Orders(n) == IF t.k = "B" THEN {Two(n)} ELSE SetToSeqs(ChildrenOf(t, n))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Step == /\ work # <<>>
        /\ UNCHANGED <<t, how, side>>
        /\ IF how \in {"dfs", "bfs"}
           THEN LET n == Head(work) IN
                /\ out' = Append(out, n)
                /\ \E o \in Orders(n) : work' = IF how = "dfs" THEN Rev(o) \o Tail(work) ELSE Tail(work) \o o
           ELSE LET n == Head(work)[1]
                    sub(x) == IF x = 0 THEN <<>> ELSE <<<<x, FALSE>>>>
                    a == sub(ChildAt(t, n, side))
                    b == sub(ChildAt(t, n, Other(side)))
                    me == <<<<n, TRUE>>>>
                IN IF Head(work)[2] THEN out' = Append(out, n) /\ work' = Tail(work)
                   ELSE /\ out' = out
                        /\ work' = (CASE how = "pre" -> me \o a \o b [] how = "in" -> a \o me \o b
                                      [] how = "post" -> a \o b \o me) \o Tail(work)
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
-----------------------------------------------------------------------------
Done == work = <<>>
Terminates == <>Done
Correct == Done =>
    /\ IsPerm(out, TNodes(t))
    /\ how = "dfs" => DepthFirstOrder(t, 1, out)
    /\ how = "bfs" => BreadthFirstOrder(t, 1, out) /\ (t.k = "B" => SideFirst(t, 1, out, side))
    /\ how \in {"pre", "in", "post"} => out = OrderOf(t, 1, how, side)
\* the orders are what they should be: each predicate against the set of all orders
Inorder == Done /\ how = "in" /\ side = "L" =>
    \A n \in TNodes(t) : LET p == PosFn(out) IN
        /\ \A m \in TNodes(t) : ChildAt(t, n, "L") # 0 /\ m \in Subtree(t, ChildAt(t, n, "L")) => p[m] < p[n]
        /\ \A m \in TNodes(t) : ChildAt(t, n, "R") # 0 /\ m \in Subtree(t, ChildAt(t, n, "R")) => p[m] > p[n]
EmitInst == (out = <<>> /\ Len(work) = 1 /\ (how \in {"dfs", "bfs"} \/ ~Head(work)[2])) =>
    PrintT("I|" \o ToJson([k |-> t.k, n |-> Cardinality(TNodes(t)), par |-> [i \in 1..Cardinality(TNodes(t)) |-> t.par[i]],
                           side |-> [i \in 1..Cardinality(TNodes(t)) |-> t.side[i]], how |-> how, first |-> side]))
=============================================================================
