------------------------------ MODULE TraceTree ------------------------------
(* Checks recorded executions of gimpy.Tree and BinaryTree: the operations    *)
(* and queries (C19), traversals (C20), expressions (C21).                    *)
EXTENDS Trees, Exprs, Json, IOUtils

PROP == IOEnv.VP_PROP
Trace == ndJsonDeserialize(IOEnv.VP_TRACE)
VARIABLES l, S
Chk(p, name, b) == IF PROP \in {p, "ALL"} /\ ~b THEN {<<p, name>>} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

-----------------------------------------------------------------------------
(* C19: a row is <<node, parent, level, left, right, side, children>> *)
Row(o, n) == o.rows[CHOOSE i \in DOMAIN o.rows : o.rows[i][1] = n]
Views(o, t) ==
    LET N == TNodes(t)
        c(name, b) == IF b THEN {} ELSE {name}
    IN IF o.x = 1 THEN {"queries raise"} ELSE
       LET M == {o.rows[i][1] : i \in DOMAIN o.rows} IN
       c("nodes", M = N /\ Len(o.rows) = Cardinality(N) /\ o.root = t.root) \cup
       (IF M # N THEN {} ELSE
        LET r == TLCEval([n \in N |-> Row(o, n)]) IN
        c("get_parent", \A n \in N : r[n][2] = t.par[n])
        \cup c("level", \A n \in N : r[n][3] = LevelOf(t, n))
        \cup c("get_children", \A n \in N : SetOf(r[n][7]) = ChildrenOf(t, n) /\ NoDup(r[n][7]))
        \cup (IF t.k = "T" THEN {} ELSE
              c("get_left_child", \A n \in N : r[n][4] = ChildAt(t, n, "L"))
              \cup c("get_right_child", \A n \in N : r[n][5] = ChildAt(t, n, "R"))
              \cup c("direction", \A n \in N : n # t.root => r[n][6] = t.side[n])))
\* the tree that is shown, if it is one
Seen(o, t) ==
    IF o.x = 1 THEN t ELSE
    LET N == {o.rows[i][1] : i \in DOMAIN o.rows}
        u == [k |-> t.k, root |-> o.root, par |-> [n \in N |-> Row(o, n)[2]],
              side |-> [n \in N |-> IF t.k = "T" \/ n = o.root THEN "-" ELSE Row(o, n)[6]]]
    IN u
Op(ev, t) == CASE ev.op = "add_root" -> AddRoot(t, ev.a)
               [] ev.op = "add_child" -> AddAt(t, ev.a, ev.b, ev.side)
               [] ev.op = "del_leaf" -> DelLeaf(t, ev.a)

-----------------------------------------------------------------------------
(* C20 *)
Traverse(ev, t) ==
    LET r == IF ev.root = 0 THEN t.root ELSE ev.root
        N == Subtree(t, r)
        o == ev.out
        perm == IsPerm(o, N)
    IN Chk("C20", ev.how \o " ended with " \o ev.r, ev.r = "ok")
       \cup IF ev.r # "ok" THEN {} ELSE
       IF ev.op = "print_nodes"
       THEN Chk("C20", "print_nodes: " \o ev.how \o "order", o = OrderOf(t, r, ev.how, ev.first))
       ELSE Chk("C20", ev.how \o ": every node of the subtree once", perm)
            \cup IF ~perm THEN {} ELSE
            Chk("C20", ev.how \o ": parents before children", ParentsFirst(t, r, o))
            \cup Chk("C20", "dfs: one subtree after the other", ev.how = "dfs" => Contiguous(t, r, o))
            \cup Chk("C20", "bfs: level by level", ev.how = "bfs" => BreadthFirstOrder(t, r, o))
            \cup Chk("C20", "bfs: priority", (ev.how = "bfs" /\ t.k = "B") => SideFirst(t, r, o, ev.first))

-----------------------------------------------------------------------------
(* C21: positions are sequences of 2 (left) and 3 (right) *)
RECURSIVE At(_, _)
At(e, pos) == IF pos = <<>> THEN e ELSE At(e[pos[1]], Tail(pos))
RECURSIVE Put(_, _, _)
Put(e, pos, x) == IF pos = <<>> THEN x ELSE [e EXCEPT ![pos[1]] = Put(e[pos[1]], Tail(pos), x)]
Expr(ev, e) ==
    CASE ev.op = "eval" ->
            LET v == Value(At(e, ev.pos))
            IN IF v = Undef THEN {}         \* a division by zero
               ELSE Chk("C21", "postordereval ended with " \o ev.r, ev.r = "ok")
                    \cup Chk("C21", "postordereval: value", ev.r = "ok" => ev.v = v)
      [] ev.op = "printexp" ->
            Chk("C21", "printexp ended with " \o ev.r, ev.r = "ok")
            \cup Chk("C21", "printexp: text", (ev.r = "ok" /\ ~IsNum(At(e, ev.pos))) => ev.v = Infix(At(e, ev.pos)))
            \cup Chk("C21", "printexp: text of a leaf", (ev.r = "ok" /\ IsNum(At(e, ev.pos))) => ev.v = Infix(At(e, ev.pos)))

-----------------------------------------------------------------------------
Judge(ev, T) ==
    CASE ev.op = "new" -> [fails |-> Chk("C19", "new tree", ev.r = "ok"), t |-> NoTree(ev.k), e |-> <<>>]
      [] ev.op \in {"add_root", "add_child", "del_leaf"} ->
            LET r == Op(ev, T.t)
                b == Views(ev.obs, r.t)
                call == Chk("C19", ev.op \o (IF r.ok THEN " ended with " \o ev.r ELSE " must raise"), (ev.r = "ok") = r.ok /\ ev.r # "timeout")
            IN [fails |-> call \cup (IF PROP \in {"C19", "ALL"} THEN {<<"C19", (IF r.ok THEN "after " ELSE "changed by rejected ") \o ev.op \o ": " \o x>> : x \in b} ELSE {}),
                t |-> IF b # {} /\ WellFormed(Seen(ev.obs, r.t)) THEN Seen(ev.obs, r.t) ELSE r.t, e |-> T.e]
      [] ev.op \in {"traverse", "print_nodes"} ->
            [fails |-> (IF WellFormed(T.t) THEN Traverse(ev, T.t) ELSE {})
                       \cup (IF PROP \in {"C20", "ALL"} THEN {<<"C20", "tree changed by traversal: " \o x>> : x \in Views(ev.obs, T.t)} ELSE {}),
             t |-> T.t, e |-> T.e]
      [] ev.op = "expr" -> [fails |-> Chk("C21", "making the tree", ev.r = "ok"), t |-> T.t, e |-> ev.e]
      [] ev.op = "put" -> [fails |-> Chk("C21", "changing the tree", ev.r = "ok"), t |-> T.t, e |-> Put(T.e, ev.pos, ev.e)]
      [] OTHER -> [fails |-> Expr(ev, T.e), t |-> T.t, e |-> T.e]

\* reading the object after a call did not come to an end or failed
Crashed(ev) == "crash" \in DOMAIN ev
Crash(ev) == {<<PROP, "the object can be read after " \o ev.op>>}
NoSession == [sid |-> -1, t |-> NoTree("T"), e |-> <<>>]
TraceInit == l = 1 /\ S = NoSession
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l]
           T  == IF ev.s = S.sid THEN S ELSE NoSession
           j  == IF Crashed(ev) THEN [fails |-> Crash(ev), t |-> T.t, e |-> T.e] ELSE Judge(ev, T)
       IN /\ j.fails # {} => PrintT("FAIL " \o ToString(l) \o " " \o ToJson(SetToSeq(j.fails)))
          /\ S' = [sid |-> ev.s, t |-> j.t, e |-> j.e]
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
