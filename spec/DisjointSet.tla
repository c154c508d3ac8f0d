----------------------------- MODULE DisjointSet -----------------------------
(* gimpy.DisjointSet: add, union and find, with the parent links the class    *)
(* keeps as a directed graph and, with Optimize, union by size and path       *)
(* compression.  The partition P and the set R of representatives of the      *)
(* linked implementation are those of the abstract partition.  C18            *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, SequencesExt, TLC, Json
CONSTANTS Items, Optimize
VARIABLES part,          \* the abstract partition: a set of disjoint sets
          par, size,     \* the links and the sizes of the roots
          last
vars == <<part, par, size, last>>
View == <<part, par, size>>
NoFn == [x \in {} |-> 0]
In == DOMAIN par
RECURSIVE Root(_, _)
Root(p, x) == IF p[x] = 0 THEN x ELSE Root(p, p[x])
RECURSIVE Depth(_, _)
Depth(p, x) == IF p[x] = 0 THEN 0 ELSE 1 + Depth(p, p[x])
RECURSIVE Chain(_, _)
Chain(p, x) == IF p[x] = 0 THEN {x} ELSE {x} \cup Chain(p, p[x])
ClassOf(x) == CHOOSE S \in part : x \in S
\* the links after finding x
Compress(p, x) == IF Optimize THEN LET r == Root(p, x)
                                   IN [y \in DOMAIN p |-> IF y \in Chain(p, x) \ {r} THEN r ELSE p[y]]
                  ELSE p
Init == part = {} /\ par = NoFn /\ size = NoFn /\ last = [op |-> "new"]
\* the first item is the root, the others hang on it
Add == \E S \in SUBSET (Items \ In) : \E r \in S :
         /\ S # {} /\ part' = part \cup {S}
         /\ par' = [x \in In \cup S |-> IF x \in In THEN par[x] ELSE IF x = r THEN 0 ELSE r]
         /\ size' = [x \in DOMAIN size \cup {r} |-> IF x = r THEN Cardinality(S) ELSE size[x]]
         /\ last' = [op |-> "add", l |-> <<r>> \o SetToSeq(S \ {r})]
Find == \E x \in In : /\ par' = Compress(par, x) /\ UNCHANGED <<part, size>>
                      /\ last' = [op |-> "find", x |-> x, r |-> Root(par, x)]
Union == \E x, y \in In :
    LET p1 == Compress(par, x)
        p2 == Compress(p1, y)
        a == Root(par, x)
        b == Root(p1, y)
        ab == size[a] <= size[b] \/ ~Optimize
        lo == IF ab THEN a ELSE b
        hi == IF ab THEN b ELSE a
    IN IF a = b THEN /\ par' = p2 /\ UNCHANGED <<part, size>>
                     /\ last' = [op |-> "union", x |-> x, y |-> y, r |-> FALSE]
       ELSE /\ par' = [p2 EXCEPT ![lo] = hi] /\ size' = [size EXCEPT ![hi] = @ + size[lo]]
            /\ part' = (part \ {ClassOf(x), ClassOf(y)}) \cup {ClassOf(x) \cup ClassOf(y)}
            /\ last' = [op |-> "union", x |-> x, y |-> y, r |-> TRUE]
Next == Add \/ Find \/ Union
Spec == Init /\ [][Next]_vars
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
-----------------------------------------------------------------------------
Represents ==
    /\ UNION part = In /\ \A S, T \in part : S # T => S \cap T = {}
    /\ \A x, y \in In : (Root(par, x) = Root(par, y)) = (ClassOf(x) = ClassOf(y))
    /\ \A x \in In : Root(par, x) \in ClassOf(x)
    /\ \A x \in In : par[x] = 0 => size[x] = Cardinality(ClassOf(x))
Shallow == Optimize => \A x \in In : Depth(par, x) <= Log2(Cardinality(ClassOf(x)))
FindKeeps == [][last'.op = "find" => part' = part /\ (Optimize => par'[last'.x] \in {0, last'.r})]_vars
UnionSays == [][last'.op = "union" => (last'.r = (ClassOf(last'.x) # ClassOf(last'.y))) /\ (~last'.r => part' = part)]_vars
Emit == PrintT("T|" \o ToJson(<<SetToSeq({<<x, par[x]>> : x \in In}), last', SetToSeq({<<x, par'[x]>> : x \in DOMAIN par'})>>))
=============================================================================
