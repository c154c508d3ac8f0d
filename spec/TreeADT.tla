------------------------------- MODULE TreeADT -------------------------------
(* The tree object (C19) together with what the class stores for it: the      *)
(* adjacency lists of the graph and the attributes parent, level, Lchild,     *)
(* Rchild and direction.  The invariant says that both show one tree.         *)
EXTENDS Trees, Json
CONSTANTS Names, Kinds
VARIABLES t, last, hist,
          adj, parent, level, lc, rc, dir        \* the representation
rep == <<adj, parent, level, lc, rc, dir>>
vars == <<t, last, hist, adj, parent, level, lc, rc, dir>>
View == <<t, rep>>
Init == /\ t \in {NoTree(k) : k \in Kinds} /\ last = [op |-> "new"] /\ hist = <<>>
        /\ adj = NoFn /\ parent = NoFn /\ level = NoFn /\ lc = NoFn /\ rc = NoFn /\ dir = NoFn
Did(r, rec) == t' = r.t /\ last' = [ok |-> r.ok] @@ rec /\ hist' = Append(hist, rec)
Drop(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
DoRoot == \E n \in Names : t.root = 0 /\ Did(AddRoot(t, n), [op |-> "add_root", a |-> n])
             /\ adj' = With(adj, n, {}) /\ parent' = With(parent, n, 0) /\ level' = With(level, n, 0)
             /\ lc' = With(lc, n, 0) /\ rc' = With(rc, n, 0) /\ dir' = With(dir, n, "-")
\* the class checks the side, then the name, and only then changes anything
DoChild == \E n, p \in Names, s \in {"-", "L", "R"} :
    LET taken == p \in DOMAIN parent /\ ((s = "L" /\ lc[p] # 0) \/ (s = "R" /\ rc[p] # 0))
        bad == n \in DOMAIN parent \/ p \notin DOMAIN parent \/ taken
    IN /\ (s = "-") = (t.k = "T")
       /\ Did(AddAt(t, n, p, s), [op |-> "add_child", a |-> n, b |-> p, side |-> s])
       /\ IF bad THEN UNCHANGED rep
          ELSE /\ adj' = With(With(adj, n, {}), p, adj[p] \cup {n})
               /\ parent' = With(parent, n, p) /\ level' = With(level, n, level[p] + 1) /\ dir' = With(dir, n, s)
               /\ lc' = [With(lc, n, 0) EXCEPT ![p] = IF s = "L" THEN n ELSE @]
               /\ rc' = [With(rc, n, 0) EXCEPT ![p] = IF s = "R" THEN n ELSE @]
\* in a general tree the root stays
DoDel == \E n \in Names :
    /\ n \in TNodes(t) => IsLeaf(t, n) /\ (t.k = "T" => n # t.root)
    /\ Did(DelLeaf(t, n), [op |-> "del_leaf", a |-> n])
    /\ IF n \notin DOMAIN parent THEN UNCHANGED rep
       ELSE LET p == parent[n] IN
            /\ adj' = [x \in DOMAIN adj \ {n} |-> adj[x] \ {n}]
            /\ parent' = Drop(parent, n) /\ level' = Drop(level, n) /\ dir' = Drop(dir, n)
            /\ lc' = [x \in DOMAIN lc \ {n} |-> IF x = p /\ dir[n] = "L" THEN 0 ELSE lc[x]]
            /\ rc' = [x \in DOMAIN rc \ {n} |-> IF x = p /\ dir[n] = "R" THEN 0 ELSE rc[x]]
Next == DoRoot \/ DoChild \/ DoDel
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
TypeOK == t.k \in Kinds /\ WellFormed(t)
OneTree == /\ DOMAIN adj = TNodes(t) /\ parent = t.par /\ dir = t.side
           /\ \A n \in TNodes(t) : /\ adj[n] = ChildrenOf(t, n) /\ level[n] = LevelOf(t, n)
                                   /\ lc[n] = ChildAt(t, n, "L") /\ rc[n] = ChildAt(t, n, "R")
RejectedUnchanged == [][~last'.ok => t' = t /\ UNCHANGED rep]_vars
EmitRun == PrintT("B|" \o ToJson(<<t.k, hist'>>))
=============================================================================
