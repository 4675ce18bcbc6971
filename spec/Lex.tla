--------------------------------- MODULE Lex ---------------------------------
(* How a database of each dialect reads SQL text: tokens with decoded         *)
(* contents, top-level clauses, boolean structure.  Written from the SQL      *)
(* rules of the dialects, not from the builder's escaping rules.              *)
EXTENDS Values

\* tokens [t |-> kind, s |-> decoded text]
\* kinds: str (string literal), id (quoted identifier), hex (x'..'), word, num, op, bad (unterminated)
Tok(t, s) == [t |-> t, s |-> s]
IsSpace(c) == c <= 32 \/ c \in Spaces
WordStart(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95 \/ c >= 128
WordPart(c) == WordStart(c) \/ c \in 48..57 \/ c = 36
LexInit == [m |-> "z", cur |-> <<>>, toks |-> <<>>, esc |-> FALSE, hex |-> FALSE]
\* character in the default mode, nothing pending
Fresh(be, st, c) ==
  CASE IsSpace(c) -> st
    [] c = 39 -> [st EXCEPT !.m = "s", !.cur = <<>>, !.esc = be \in {"sql", "mysql"}, !.hex = FALSE]
    [] c = Quote(be) -> [st EXCEPT !.m = "i", !.cur = <<>>]
    [] WordStart(c) -> [st EXCEPT !.m = "w", !.cur = <<c>>]
    [] c \in 48..57 -> [st EXCEPT !.m = "n", !.cur = <<c>>]
    [] OTHER -> [st EXCEPT !.toks = Append(@, Tok("op", <<c>>))]
Emit(st, kind) == [st EXCEPT !.m = "z", !.cur = <<>>, !.toks = Append(@, Tok(kind, st.cur))]
Unescape(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 98 -> 8 [] c = 48 -> 0 [] OTHER -> c
LexStep(be, st, c) ==
  CASE st.m = "z" -> Fresh(be, st, c)
    [] st.m = "s" -> IF c = 39 THEN [st EXCEPT !.m = "S"]
                     ELSE IF c = 92 /\ st.esc THEN [st EXCEPT !.m = "b"]
                     ELSE [st EXCEPT !.cur = Append(@, c)]
    [] st.m = "b" -> [st EXCEPT !.m = "s", !.cur = Append(@, Unescape(c))]
    [] st.m = "S" -> IF c = 39 THEN [st EXCEPT !.m = "s", !.cur = Append(@, 39)]
                     ELSE Fresh(be, Emit(st, IF st.hex THEN "hex" ELSE "str"), c)
    [] st.m = "i" -> IF c = Quote(be) THEN [st EXCEPT !.m = "I"] ELSE [st EXCEPT !.cur = Append(@, c)]
    [] st.m = "I" -> IF c = Quote(be) THEN [st EXCEPT !.m = "i", !.cur = Append(@, c)]
                     ELSE Fresh(be, Emit(st, "id"), c)
    [] st.m = "w" -> IF WordPart(c) THEN [st EXCEPT !.cur = Append(@, c)]
                     ELSE IF c = 39 /\ st.cur = <<69>> /\ be = "postgresql"
                          THEN [st EXCEPT !.m = "s", !.cur = <<>>, !.esc = TRUE, !.hex = FALSE]
                     ELSE IF c = 39 /\ st.cur \in {<<120>>, <<88>>}
                          THEN [st EXCEPT !.m = "s", !.cur = <<>>, !.esc = FALSE, !.hex = TRUE]
                     ELSE Fresh(be, Emit(st, "word"), c)
    [] st.m = "n" -> IF c \in 48..57 \/ c = 46 THEN [st EXCEPT !.cur = Append(@, c)]
                     ELSE Fresh(be, Emit(st, "num"), c)
Lex(be, t) ==
  LET st == FoldLeft(LAMBDA a, c : LexStep(be, a, c), LexInit, t) IN
  CASE st.m = "z" -> st.toks
    [] st.m = "S" -> Emit(st, IF st.hex THEN "hex" ELSE "str").toks
    [] st.m = "I" -> Emit(st, "id").toks
    [] st.m = "w" -> Emit(st, "word").toks
    [] st.m = "n" -> Emit(st, "num").toks
    [] OTHER -> Emit(st, "bad").toks
Bads(toks) == {i \in 1..Len(toks) : toks[i].t = "bad"}
OfKinds(toks, ks) == SelectSeq(toks, LAMBDA x : x.t \in ks)

OpenP == Tok("op", <<40>>)
CloseP == Tok("op", <<41>>)
Comma == Tok("op", <<44>>)
DotT == Tok("op", <<46>>)
\* depth before each token
Depths(toks) == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + (IF x = OpenP THEN 1 ELSE IF x = CloseP THEN -1 ELSE 0)),
                         <<0>>, toks)
\* split at depth 0 wherever cut(token) holds (the token is dropped)
SplitAt(toks, cut(_)) ==
  LET step(a, x) ==
        LET d == a.d + (IF x = OpenP THEN 1 ELSE IF x = CloseP THEN -1 ELSE 0)
        IN IF a.d = 0 /\ cut(x) THEN [d |-> d, out |-> Append(a.out, <<>>)]
           ELSE [d |-> d, out |-> [a.out EXCEPT ![Len(a.out)] = Append(@, x)]]
  IN FoldLeft(step, [d |-> 0, out |-> <<<<>>>>], toks).out

W(s) == Tok("word", T(s))
Starts(k) == CASE k = "select" -> {W("SELECT"), W("FROM"), W("WHERE"), W("GROUP"), W("HAVING"), W("ORDER"), W("LIMIT"),
                                   W("OFFSET"), W("INTO"), W("FOR"), W("UNION")}
               [] k = "insert" -> {W("INSERT"), W("REPLACE"), W("INTO"), W("VALUES"), W("ON")}
               [] k = "update" -> {W("UPDATE"), W("SET"), W("WHERE")}
               [] k = "delete" -> {W("DELETE"), W("FROM"), W("WHERE")}
               [] OTHER -> {}
StartTab == [select |-> Starts("select"), insert |-> Starts("insert"), update |-> Starts("update"), delete |-> Starts("delete")]
\* top-level clauses in the order of the text: each is its tokens, first token the keyword
Clauses(k, toks) ==
  IF k \notin DOMAIN StartTab THEN <<toks>>
  ELSE LET step(a, x) ==
             LET d == a.d + (IF x = OpenP THEN 1 ELSE IF x = CloseP THEN -1 ELSE 0)
             IN IF a.d = 0 /\ x \in StartTab[k] THEN [d |-> d, out |-> Append(a.out, <<x>>)]
                ELSE [d |-> d, out |-> [a.out EXCEPT ![Len(a.out)] = Append(@, x)]]
           cs == FoldLeft(step, [d |-> 0, out |-> <<<<>>>>], toks).out
       IN IF cs[1] = <<>> THEN Tail(cs) ELSE cs
\* all tokens of the clauses starting with one of the given keywords
InClauses(k, toks, kws) == FoldLeft(LAMBDA a, c : IF c[1] \in kws THEN a \o c ELSE a, <<>>,
                                    SelectSeq(Clauses(k, toks), LAMBDA c : c # <<>>))
ClauseHeads(k, toks) == LET cs == SelectSeq(Clauses(k, toks), LAMBDA c : c # <<>>)
                        IN [i \in 1..Len(cs) |-> cs[i][1]]

(* ---------------- boolean structure: OR < AND < NOT < predicate ---------------- *)
AndT == W("AND")
OrT == W("OR")
NotT == W("NOT")
SelT == W("SELECT")
IsAnd(x) == x = AndT
IsOr(x) == x = OrT
\* does the closing parenthesis of the first token end the sequence?
Wrapped(ts) == /\ Len(ts) >= 2 /\ ts[1] = OpenP /\ ts[Len(ts)] = CloseP
               /\ LET d == Depths(ts) IN \A i \in 2..Len(ts) : d[i] > 0
Inner(ts) == SubSeq(ts, 2, Len(ts) - 1)
IsNot(ts) == Len(ts) > 1 /\ ts[1] = NotT
IsGroup(ts) == Wrapped(ts) /\ ts[2] # SelT
\* a condition read once: [t |-> "or" | "and" | "not" | "atom", x |-> subtrees or tokens]
RECURSIVE Tree(_), TAtoms(_), THolds(_, _), TWellFormed(_)
Tree(ts) ==
  LET o == SplitAt(ts, IsOr) IN
  IF Len(o) > 1 THEN [t |-> "or", x |-> [i \in 1..Len(o) |-> Tree(o[i])]]
  ELSE LET a == SplitAt(ts, IsAnd) IN
  IF Len(a) > 1 THEN [t |-> "and", x |-> [i \in 1..Len(a) |-> Tree(a[i])]]
  ELSE IF IsNot(ts) THEN [t |-> "not", x |-> <<Tree(Tail(ts))>>]
  ELSE IF IsGroup(ts) THEN Tree(Inner(ts))
  ELSE [t |-> "atom", x |-> ts]
\* the set of predicates of a condition
TAtoms(n) == IF n.t = "atom" THEN {n.x} ELSE UNION {TAtoms(n.x[i]) : i \in 1..Len(n.x)}
\* truth of a condition when exactly the predicates in val are true
THolds(n, val) == CASE n.t = "or" -> \E i \in 1..Len(n.x) : THolds(n.x[i], val)
                    [] n.t = "and" -> \A i \in 1..Len(n.x) : THolds(n.x[i], val)
                    [] n.t = "not" -> ~THolds(n.x[1], val)
                    [] OTHER -> n.x \in val
\* well-formed: no empty predicate, no dangling operator
TWellFormed(n) == IF n.t = "atom" THEN n.x # <<>> /\ n.x # <<OpenP, CloseP>> /\ n.x # <<NotT>>
                  ELSE \A i \in 1..Len(n.x) : TWellFormed(n.x[i])
TEquivalent(x, y) == LET at == TAtoms(x) \cup TAtoms(y) IN
                     IF Cardinality(at) > 10 THEN x = y
                     ELSE \A val \in SUBSET at : THolds(x, val) = THolds(y, val)
=============================================================================
