--------------------------------- MODULE Dot ---------------------------------
(* The DOT language (https://graphviz.org/doc/info/lang.html) over sequences  *)
(* of code points: a lexer, a parser, and what a text says.  Not covered:     *)
(* comments, concatenation of strings, subgraphs as end points of edges.      *)
(* Both are automata, folded over the text and over the tokens.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c >= 128
IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c \in {9, 10, 13, 32}
Punct == [c \in {123, 125, 91, 93, 59, 44, 61, 58} |->
            CASE c = 123 -> "{" [] c = 125 -> "}" [] c = 91 -> "[" [] c = 93 -> "]"
              [] c = 59 -> ";" [] c = 44 -> "," [] c = 61 -> "=" [] c = 58 -> ":"]
Lower(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Keyword(s) == CASE s = <<103, 114, 97, 112, 104>> -> "graph"
                [] s = <<100, 105, 103, 114, 97, 112, 104>> -> "digraph"
                [] s = <<115, 117, 98, 103, 114, 97, 112, 104>> -> "subgraph"
                [] s = <<110, 111, 100, 101>> -> "node"
                [] s = <<101, 100, 103, 101>> -> "edge"
                [] s = <<115, 116, 114, 105, 99, 116>> -> "strict"
                [] OTHER -> ""

-----------------------------------------------------------------------------
(* lexer: m is the mode, b the characters of the token begun, o the tokens *)
Tok(k, v, q) == [k |-> k, v |-> v, q |-> q]
L0 == [m |-> "N", b |-> <<>>, d |-> 0, o |-> <<>>, bad |-> FALSE]
Emit1(st, t) == [st EXCEPT !.m = "N", !.b = <<>>, !.o = Append(@, t)]
\* an identifier or a keyword
Word(st) == LET k == IF Len(st.b) \in 4..8 THEN Keyword(Lower(st.b)) ELSE ""
            IN IF k = "" THEN Emit1(st, Tok("id", st.b, "plain")) ELSE Emit1(st, Tok(k, st.b, "plain"))
Number(st) == LET dots == Len(SelectSeq(st.b, LAMBDA c : c = 46))
                  digits == Len(SelectSeq(st.b, IsDigit))
              IN [Emit1(st, Tok("id", st.b, "plain")) EXCEPT !.bad = @ \/ dots > 1 \/ digits = 0]
LexN(st, c) ==
    CASE IsSpace(c) -> st
      [] c = 34 -> [st EXCEPT !.m = "Q", !.b = <<>>]
      [] c = 60 -> [st EXCEPT !.m = "H", !.b = <<>>, !.d = 1]
      [] IsLetter(c) -> [st EXCEPT !.m = "I", !.b = <<c>>]
      [] IsDigit(c) \/ c = 46 -> [st EXCEPT !.m = "D", !.b = <<c>>]
      [] c = 45 -> [st EXCEPT !.m = "M"]
      [] c \in DOMAIN Punct -> Emit1(st, Tok(Punct[c], <<>>, ""))
      [] OTHER -> [st EXCEPT !.bad = TRUE]
Lex1(st, c) ==
    CASE st.m = "N" -> LexN(st, c)
      [] st.m = "I" -> IF IsLetter(c) \/ IsDigit(c) THEN [st EXCEPT !.b = Append(@, c)] ELSE LexN(Word(st), c)
      [] st.m = "D" -> IF IsDigit(c) \/ c = 46 THEN [st EXCEPT !.b = Append(@, c)]
                       ELSE IF IsLetter(c) THEN [st EXCEPT !.bad = TRUE]
                       ELSE LexN(Number(st), c)
      [] st.m = "M" -> IF c = 62 THEN Emit1(st, Tok("->", <<>>, ""))
                       ELSE IF c = 45 THEN Emit1(st, Tok("--", <<>>, ""))
                       ELSE IF IsDigit(c) \/ c = 46 THEN [st EXCEPT !.m = "D", !.b = <<45, c>>]
                       ELSE [st EXCEPT !.bad = TRUE]
      [] st.m = "Q" -> IF c = 34 THEN Emit1(st, Tok("id", st.b, "quoted"))
                       ELSE IF c = 92 THEN [st EXCEPT !.m = "E"]
                       ELSE [st EXCEPT !.b = Append(@, c)]
      [] st.m = "E" -> [st EXCEPT !.m = "Q", !.b = IF c = 34 THEN Append(@, 34) ELSE @ \o <<92, c>>]
      [] st.m = "H" -> IF c = 62 /\ st.d = 1 THEN Emit1(st, Tok("id", st.b, "html"))
                       ELSE [st EXCEPT !.b = Append(@, c), !.d = IF c = 60 THEN @ + 1 ELSE IF c = 62 THEN @ - 1 ELSE @]
Lex(text) ==
    LET e == FoldLeft(Lex1, L0, text)
    IN CASE e.m = "I" -> Word(e) [] e.m = "D" -> Number(e) [] e.m = "N" -> e
         [] OTHER -> [e EXCEPT !.bad = TRUE]

-----------------------------------------------------------------------------
(* parser: ph is what is expected next, stack the open scopes (0 is the graph,*)
(* i the i-th subgraph), cur the nodes of the statement begun, kind its kind. *)
(* N: node statements, E: edges, G: graph attributes, D: defaults.            *)
P0 == [ph |-> "start", stack |-> <<>>, cur |-> <<>>, kind |-> "", at |-> <<>>, key |-> <<>>, bad |-> FALSE,
       type |-> "", name |-> Tok("id", <<>>, ""), subs |-> <<>>, N |-> <<>>, E |-> <<>>, G |-> <<>>, D |-> <<>>]
Scope(p) == p.stack[Len(p.stack)]
Bad(p) == [p EXCEPT !.bad = TRUE]
Begin(p) == [p EXCEPT !.ph = "stmt", !.cur = <<>>, !.at = <<>>, !.kind = ""]
\* the statement is complete
Flush(p) ==
    LET sc == Scope(p) IN
    Begin(CASE p.kind = "node" -> [p EXCEPT !.N = Append(@, [v |-> p.cur[1], at |-> p.at, sc |-> sc])]
            [] p.kind = "edge" -> [p EXCEPT !.E = @ \o [i \in 1..(Len(p.cur) - 1) |->
                                        [a |-> p.cur[i], b |-> p.cur[i + 1], at |-> p.at, sc |-> sc]]]
            [] p.kind = "graph" -> [p EXCEPT !.G = @ \o [i \in DOMAIN p.at |-> [sc |-> sc, k |-> p.at[i][1], v |-> p.at[i][2]]]]
            [] p.kind \in {"nodes", "edges"} -> [p EXCEPT !.D = @ \o [i \in DOMAIN p.at |->
                                        [sc |-> sc, w |-> p.kind, k |-> p.at[i][1], v |-> p.at[i][2]]]])
Push(p, name) == Begin([p EXCEPT !.subs = Append(@, [name |-> name, up |-> Scope(p)]), !.stack = Append(@, Len(p.subs) + 1)])
Stmt(p, t) ==
    CASE t.k = ";" -> p
      [] t.k = "id" -> [p EXCEPT !.ph = "id", !.cur = <<t>>, !.kind = "node"]
      [] t.k = "graph" -> [p EXCEPT !.ph = "open", !.kind = "graph"]
      [] t.k = "node" -> [p EXCEPT !.ph = "open", !.kind = "nodes"]
      [] t.k = "edge" -> [p EXCEPT !.ph = "open", !.kind = "edges"]
      [] t.k = "subgraph" -> [p EXCEPT !.ph = "sub"]
      [] t.k = "{" -> Push(p, <<>>)
      [] t.k = "}" -> LET s == SubSeq(p.stack, 1, Len(p.stack) - 1)
                      IN [p EXCEPT !.stack = s, !.ph = IF s = <<>> THEN "end" ELSE "stmt"]
      [] OTHER -> Bad(p)
EdgeOp(p) == IF p.type = "digraph" THEN "->" ELSE "--"
Parse1(p, t) ==
    IF p.bad THEN p ELSE
    CASE p.ph = "start" -> (CASE t.k = "strict" -> p
                              [] t.k \in {"graph", "digraph"} -> [p EXCEPT !.type = t.k, !.ph = "name"]
                              [] OTHER -> Bad(p))
      [] p.ph = "name" -> (CASE t.k = "id" -> [p EXCEPT !.name = t, !.ph = "body"]
                             [] t.k = "{" -> Begin([p EXCEPT !.stack = <<0>>])
                             [] OTHER -> Bad(p))
      [] p.ph = "body" -> IF t.k = "{" THEN Begin([p EXCEPT !.stack = <<0>>]) ELSE Bad(p)
      [] p.ph = "stmt" -> Stmt(p, t)
      [] p.ph \in {"id", "id2"} ->
             (CASE t.k = "=" /\ p.ph = "id" -> [p EXCEPT !.ph = "assign"]
                [] t.k = "[" -> [p EXCEPT !.ph = "list"]
                [] t.k \in {"->", "--"} -> IF t.k = EdgeOp(p) THEN [p EXCEPT !.ph = "to", !.kind = "edge"] ELSE Bad(p)
                [] t.k = ":" -> [p EXCEPT !.ph = "port"]
                [] OTHER -> Stmt(Flush(p), t))
      [] p.ph = "port" -> IF t.k = "id" THEN [p EXCEPT !.ph = "id2"] ELSE Bad(p)
      [] p.ph = "assign" -> IF t.k = "id" THEN Begin([p EXCEPT !.G = Append(@, [sc |-> Scope(p), k |-> p.cur[1], v |-> t])])
                            ELSE Bad(p)
      [] p.ph = "to" -> IF t.k = "id" THEN [p EXCEPT !.ph = "id2", !.cur = Append(@, t)] ELSE Bad(p)
      [] p.ph = "open" -> IF t.k = "[" THEN [p EXCEPT !.ph = "list"] ELSE Bad(p)
      [] p.ph \in {"list", "more"} ->
             (CASE t.k = "id" -> [p EXCEPT !.ph = "eq", !.key = t]
                [] t.k = "]" -> [p EXCEPT !.ph = "closed"]
                [] t.k \in {",", ";"} /\ p.ph = "more" -> [p EXCEPT !.ph = "list"]
                [] OTHER -> Bad(p))
      [] p.ph = "eq" -> IF t.k = "=" THEN [p EXCEPT !.ph = "val"] ELSE Bad(p)
      [] p.ph = "val" -> IF t.k = "id" THEN [p EXCEPT !.ph = "more", !.at = Append(@, <<p.key, t>>)] ELSE Bad(p)
      [] p.ph = "closed" -> IF t.k = "[" THEN [p EXCEPT !.ph = "list"] ELSE Stmt(Flush(p), t)
      [] p.ph = "sub" -> (CASE t.k = "id" -> [p EXCEPT !.ph = "sub2", !.cur = <<t>>]
                            [] t.k = "{" -> Push(p, <<>>)
                            [] OTHER -> Bad(p))
      [] p.ph = "sub2" -> IF t.k = "{" THEN Push(p, p.cur[1].v) ELSE Bad(p)
      [] OTHER -> Bad(p)
\* what a text says; ok is whether it is DOT
Read(text) ==
    LET x == TLCEval(Lex(text))
        p == TLCEval(FoldLeft(Parse1, P0, x.o))
    IN [ok |-> ~x.bad /\ ~p.bad /\ p.ph = "end", p |-> p]

-----------------------------------------------------------------------------
(* writing identifiers *)
IsPlain(s) == s # <<>> /\ \A i \in DOMAIN s : (s[i] < 128) /\ (IsLetter(s[i]) \/ (IsDigit(s[i])))
NeedsQuotes(s) == ~(IsPlain(s) /\ ((IsLetter(s[1]) /\ Keyword(Lower(s)) = "") \/ \A i \in DOMAIN s : IsDigit(s[i])))
Escaped(s) == FoldLeft(LAMBDA acc, c : IF c = 34 THEN acc \o <<92, 34>> ELSE Append(acc, c), <<>>, s)
Quote(s) == IF NeedsQuotes(s) THEN <<34>> \o Escaped(s) \o <<34>> ELSE s
\* strings that are written as they are
Between(s, a, b) == Len(s) >= 2 /\ s[1] = a /\ s[Len(s)] = b
Inner(s) == SubSeq(s, 2, Len(s) - 1)
\* does token t stand for the string s?
Means(t, s) == IF Between(s, 60, 62) THEN t.q = "html" /\ t.v = Inner(s)
               ELSE IF Between(s, 34, 34) THEN t.q = "quoted" /\ t.v = Inner(s)
               ELSE t.q # "html" /\ t.v = s
=============================================================================
