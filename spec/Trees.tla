-------------------------------- MODULE Trees --------------------------------
(* Rooted trees as values, and the operations of gimpy.Tree and BinaryTree    *)
(* as functions.  A tree: kind "T" (general) or "B" (binary), root (0: none), *)
(* par: node -> parent (0 for the root), side: node -> "L", "R" or "-".       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
NoFn == [x \in {} |-> 0]
NoTree(k) == [k |-> k, root |-> 0, par |-> NoFn, side |-> NoFn]
TNodes(t) == DOMAIN t.par
ChildrenOf(t, p) == {n \in TNodes(t) : t.par[n] = p}
ChildAt(t, p, s) == LET C == {n \in ChildrenOf(t, p) : t.side[n] = s} IN IF C = {} THEN 0 ELSE CHOOSE n \in C : TRUE
RECURSIVE LevelOf(_, _)
LevelOf(t, n) == IF t.par[n] = 0 THEN 0 ELSE 1 + LevelOf(t, t.par[n])
RECURSIVE Subtree(_, _)
Subtree(t, r) == {r} \cup UNION {Subtree(t, n) : n \in ChildrenOf(t, r)}
\* following the parents ends at the root
RECURSIVE Below(_, _, _)
Below(t, A, k) == IF k = 0 THEN A ELSE Below(t, A \cup {n \in TNodes(t) : t.par[n] \in A}, k - 1)
ReachesRoot(t) == Below(t, {t.root}, Cardinality(TNodes(t))) = TNodes(t)
WellFormed(t) ==
    /\ (t.root = 0) = (TNodes(t) = {})
    /\ t.root # 0 => t.root \in TNodes(t) /\ t.par[t.root] = 0
    /\ \A n \in TNodes(t) : n # t.root => t.par[n] \in TNodes(t)
    /\ t.root # 0 => ReachesRoot(t) /\ Subtree(t, t.root) = TNodes(t)
    /\ t.k = "B" => \A n, m \in TNodes(t) : n # m /\ t.par[n] = t.par[m] => t.side[n] # t.side[m]

Yes(t) == [ok |-> TRUE, t |-> t]
No(t) == [ok |-> FALSE, t |-> t]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
\* a second root is outside the contract
AddRoot(t, n) == Yes([t EXCEPT !.root = n, !.par = With(@, n, 0), !.side = With(@, n, "-")])
AddAt(t, n, p, s) == IF n \in TNodes(t) \/ p \notin TNodes(t) THEN No(t)
                     ELSE IF s # "-" /\ ChildAt(t, p, s) # 0 THEN No(t)
                     ELSE Yes([t EXCEPT !.par = With(@, n, p), !.side = With(@, n, s)])
IsLeaf(t, n) == n \in TNodes(t) /\ ChildrenOf(t, n) = {}
DelLeaf(t, n) == IF n \notin TNodes(t) THEN No(t)
                 ELSE LET D == TNodes(t) \ {n}
                      IN Yes([t EXCEPT !.root = IF n = @ THEN 0 ELSE @,
                                       !.par = [x \in D |-> t.par[x]], !.side = [x \in D |-> t.side[x]]])
-----------------------------------------------------------------------------
\* Orders of traversal.  o is a sequence of nodes.
IsPerm(o, N) == {o[i] : i \in DOMAIN o} = N /\ Len(o) = Cardinality(N)
PosFn(o) == TLCEval([n \in {o[i] : i \in DOMAIN o} |-> CHOOSE i \in DOMAIN o : o[i] = n])
ParentsFirst(t, r, o) == LET p == PosFn(o) IN \A n \in Subtree(t, r) \ {r} : p[t.par[n]] < p[n]
\* every subtree is an interval
Contiguous(t, r, o) == LET p == PosFn(o) IN
    \A n \in Subtree(t, r) : LET M == Subtree(t, n)
                             IN \A m \in M : p[m] >= p[n] /\ p[m] < p[n] + Cardinality(M)
DepthFirstOrder(t, r, o) == ParentsFirst(t, r, o) /\ Contiguous(t, r, o)
BreadthFirstOrder(t, r, o) == LET p == PosFn(o) IN
    /\ ParentsFirst(t, r, o)
    /\ \A n, m \in Subtree(t, r) : LevelOf(t, n) < LevelOf(t, m) => p[n] < p[m]
    /\ \A n, m \in Subtree(t, r) \ {r} : p[t.par[n]] < p[t.par[m]] => p[n] < p[m]
\* between brothers the one on the side s comes first
SideFirst(t, r, o, s) == LET p == PosFn(o) IN
    \A n, m \in Subtree(t, r) \ {r} : t.par[n] = t.par[m] /\ n # m /\ t.side[n] = s => p[n] < p[m]
Other(s) == IF s = "L" THEN "R" ELSE "L"
\* pre-, in- and postorder of a binary subtree, side s first
RECURSIVE OrderOf(_, _, _, _)
OrderOf(t, r, how, s) ==
    IF r = 0 THEN <<>>
    ELSE LET a == OrderOf(t, ChildAt(t, r, s), how, s)
             b == OrderOf(t, ChildAt(t, r, Other(s)), how, s)
         IN CASE how = "pre" -> <<r>> \o a \o b
              [] how = "in" -> a \o <<r>> \o b
              [] how = "post" -> a \o b \o <<r>>
=============================================================================
