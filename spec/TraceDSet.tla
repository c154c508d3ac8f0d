------------------------------ MODULE TraceDSet ------------------------------
(* Checks recorded executions of gimpy.DisjointSet (C18).  The state is the   *)
(* partition, the representative of each class as far as it was told since    *)
(* the class came about, and whether optimisation is on.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S
Chk(p, name, b) == IF PROP \in {p, "ALL"} /\ ~b THEN {<<p, name>>} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}

\* the partition and what is known of representatives: a set of <<class, representative or 0>>
Items(P) == UNION {c[1] : c \in P}
ClassOf(P, x) == CHOOSE c \in P : x \in c[1]
Told(P, x, r) == {c \in P : x \notin c[1]} \cup {<<ClassOf(P, x)[1], r>>}
\* representative r is possible for x
RepOK(P, x, r) == LET c == ClassOf(P, x) IN r \in c[1] /\ c[2] \in {0, r}
Merged(P, x, y) == LET a == ClassOf(P, x)
                       b == ClassOf(P, y)
                   IN IF a = b THEN P ELSE (P \ {a, b}) \cup {<<a[1] \cup b[1], 0>>}

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
\* links: item -> item it is linked to, or 0; number of links to the representative, 99 if there is a cycle
RECURSIVE Up(_, _, _)
Up(L, x, k) == IF L[x] = 0 THEN <<x, k>> ELSE IF k > Cardinality(DOMAIN L) THEN <<x, 99>> ELSE Up(L, L[x], k + 1)

Links(o) == TLCEval([x \in {o.lk[i][1] : i \in DOMAIN o.lk} |->
                LET i == CHOOSE j \in DOMAIN o.lk : o.lk[j][1] = x
                IN IF o.lk[i][2] = <<>> THEN 0 ELSE o.lk[i][2][1]])
\* clauses about the links shown after a call
Shown(o, P, opt) ==
    LET N == {o.lk[i][1] : i \in DOMAIN o.lk}
        L == Links(o)
        single == \A i \in DOMAIN o.lk : Len(o.lk[i][2]) <= 1 /\ SetOf(o.lk[i][2]) \subseteq N
        up == TLCEval([x \in N |-> Up(L, x, 0)])
    IN Chk("C18", "the items are those that were added", N = Items(P) /\ Len(o.lk) = Cardinality(N))
       \cup Chk("C18", "links show the partition",
                N = Items(P) => single /\ \A x \in N : up[x][2] < 99 /\
                    {y \in N : up[y][1] = up[x][1]} = ClassOf(P, x)[1])
       \cup Chk("C18", "at most log2(size) links to the representative",
                (opt = 1 /\ N = Items(P) /\ single) => \A x \in N : up[x][2] <= Log2(Cardinality(ClassOf(P, x)[1])))

FindAll(P, fs) == FoldLeft(LAMBDA Q, f : IF f[1] \in Items(Q) /\ RepOK(Q, f[1], f[2]) THEN Told(Q, f[1], f[2]) ELSE Q, P, fs)
AllOK(P, fs) == FoldLeft(LAMBDA acc, f : IF RepOK(acc[2], f[1], f[2]) THEN <<acc[1], Told(acc[2], f[1], f[2])>> ELSE <<FALSE, acc[2]>>,
                         <<TRUE, P>>, fs)[1]

Judge(ev, T) ==
    LET P == T.P
        ret == Chk("C18", ev.op \o " ended with " \o ev.r, ev.r = "ok")
        opt == IF ev.op = "new" THEN ev.opt ELSE T.opt
        P1 == CASE ev.op = "new" -> {}
                [] ev.op = "add" -> P \cup {<<SetOf(ev.l), 0>>}
                [] ev.op = "union" -> Merged(P, ev.a, ev.b)
                [] ev.op = "find" -> IF ev.r = "ok" /\ RepOK(P, ev.a, ev.v) THEN Told(P, ev.a, ev.v) ELSE P
                [] ev.op = "findall" -> FindAll(P, ev.fs)
        own == IF ev.r # "ok" THEN {} ELSE
               CASE ev.op = "find" -> Chk("C18", "find: representative of the set of the item", RepOK(P, ev.a, ev.v))
                     \cup Chk("C18", "find: item linked to its representative",
                              (opt = 1 /\ ev.a # ev.v /\ ev.a \in {ev.obs.lk[i][1] : i \in DOMAIN ev.obs.lk}) => Links(ev.obs)[ev.a] = ev.v)
                 [] ev.op = "findall" -> Chk("C18", "find: representative of the set of the item", AllOK(P, ev.fs))
                 [] ev.op = "union" -> Chk("C18", "union: True exactly if the sets were different",
                                           ev.v = IF ClassOf(P, ev.a) = ClassOf(P, ev.b) THEN "False" ELSE "True")
                 [] OTHER -> {}
    IN [fails |-> ret \cup own \cup (IF ev.r = "ok" THEN Shown(ev.obs, P1, opt) ELSE {}), T |-> [P |-> P1, opt |-> opt]]

\* reading the object after a call did not come to an end or failed
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
NoSession == [sid |-> -1, P |-> {}, opt |-> 0]
TraceInit == l = 1 /\ S = NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE NoSession
           j  == IF Crashed(ev) THEN [fails |-> Crash(ev), T |-> [P |-> T.P, opt |-> T.opt]] ELSE Judge(ev, T)
       IN /\ j.fails # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(j.fails)))
          /\ S' = [sid |-> ev.s] @@ j.T
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
