-------------------------------- MODULE MC_C02 --------------------------------
(* Every short name over the characters that matter, in every name position:  *)
(* read back by the dialect's lexer the name is a dot-separated chain of      *)
(* quoted identifiers (or a star) with the parts of the name, and nothing else*)
(* of the statement changes.                                                  *)
EXTENDS MC
C02Bes == {"sql", "mysql", "postgresql", "sqlite"}
C02Limit == 1
C02Start(b) == <<>>
C02G(b) == <<>>
C02GStep(g, fx) == fx
Chars(b) == {Quote(b), 46, 42, 97, 32, 39, 10} \cup (IF Deep THEN {130 - Quote(b), 92} ELSE {})
NPos == 31
PosOf(b) == SelectSeq([i \in 1..(NPos - 1) |-> i + 1], LAMBDA p : (p = 22 => b \in {"mysql", "postgresql"}) /\ (p = 23 => b = "postgresql"))
Position(b, s, p) ==
  LET v == vT(s)
      sel == <<eNew("select_from", <<vS("t")>>)>>
  IN CASE p = 1 -> <<eVal(vR(v))>>
       [] p = 2 -> <<eNew("select", <<v>>), eTxt(1)>>
       [] p = 3 -> <<eNew("select", <<vTup(<<vS("c"), v>>)>>), eTxt(1)>>
       [] p = 4 -> <<eNew("select_from", <<v>>), eTxt(1)>>
       [] p = 5 -> sel \o <<eCall(1, "from_table", <<vS("u"), v>>), eTxt(1)>>
       [] p = 6 -> sel \o <<eCall(1, "where", <<v, vI(1)>>), eTxt(1)>>
       [] p = 7 -> sel \o <<eCall(1, "having", <<v, vList(<<vI(1), vI(2)>>)>>), eTxt(1)>>
       [] p = 8 -> sel \o <<eCall(1, "order_by", <<vTup(<<v, vS("desc")>>)>>), eTxt(1)>>
       [] p = 9 -> sel \o <<eCall(1, "group_by", <<v>>), eTxt(1)>>
       [] p = 10 -> sel \o <<eCall(1, "join", <<vTup(<<vS("u"), v>>)>>), eTxt(1)>>
       [] p = 11 -> sel \o <<eCall(1, "left_join", <<v>>), eCall(1, "on", <<vS("a"), vS("b")>>), eTxt(1)>>
       [] p = 12 -> sel \o <<eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<vS("a"), v>>), eTxt(1)>>
       [] p = 13 -> <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<v, vI(1)>>), eTxt(1)>>
       [] p = 14 -> <<eNew("update", <<vS("t")>>), eCall(1, "allow_update_all", <<>>), eCall(1, "set", <<v, vI(1)>>), eTxt(1)>>
       [] p = 15 -> <<eNew("avg", <<v>>), eTxt(1)>>
       [] p = 16 -> <<eNew("concat", <<vS("a"), v>>), eTxt(1)>>
       [] p = 17 -> <<eNew("count", <<v>>), eTxt(1)>>
       [] p = 18 -> <<eNew("group_concat", <<vS("a")>>), eCall(1, "order_by", <<v>>), eTxt(1)>>
       [] p = 19 -> <<eNew("delete", <<v>>), eCall(1, "from_", <<vS("t")>>), eCall(1, "allow_delete_all", <<>>), eTxt(1)>>
       [] p = 20 -> <<eNew("delete_from", <<vTup(<<v, vS("y")>>)>>), eCall(1, "allow_delete_all", <<>>), eTxt(1)>>
       [] p = 21 -> <<eNew("insert_into", <<v>>), eCall(1, "values", <<vS("a"), vI(1)>>), eTxt(1)>>
       [] p = 22 -> <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<vS("a"), vI(1)>>),
                      eCall(1, "on_duplicate_key_update", (IF b = "postgresql" THEN <<vS("k")>> ELSE IF b = "mysql" THEN <<>> ELSE <<>>) \o <<vDict(<<<<v, vI(1)>>>>)>>), eTxt(1)>>
       [] p = 23 -> <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<vS("a"), vI(1)>>),
                      eCall(1, "on_duplicate_key_update", <<v, vDict(<<<<vS("a"), vI(1)>>>>)>>), eTxt(1)>>
       [] p = 24 -> <<eNew("convert", <<v, vS("unsigned")>>), eTxt(1)>>
       [] p = 25 -> <<eNew("update", <<v>>), eCall(1, "allow_update_all", <<>>), eCall(1, "set", <<vS("a"), vI(1)>>), eTxt(1)>>
       [] p = 26 -> sel \o <<eCall(1, "inner_join", <<vDict(<<<<v, vS("y")>>>>)>>), eTxt(1)>>
       [] p = 27 -> sel \o <<eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<v, vI(1)>>), eTxt(1)>>
       [] p = 28 -> sel \o <<eCallK(1, "columns", <<>>, <<<<s, vS("y")>>>>), eTxt(1)>>
       [] p = 29 -> sel \o <<eCall(1, "where", <<vS("a"), vR(v)>>), eTxt(1)>>
       [] p = 30 -> sel \o <<eCall(1, "where", <<vS("a"), vRel("GT", <<vR(v)>>)>>), eTxt(1)>>
       [] p = 31 -> <<eNew("max_distinct", <<v>>), eTxt(1)>>
\* a name of which something is left to quote
Solid(s) == \E i \in 1..Len(s) : s[i] # 46
C02Moves(x) ==
  LET short == ListOf({s \in Words(Chars(x.be), IF Deep THEN 3 ELSE 2) : Solid(s)})
      long == ListOf(Words(Chars(x.be), IF Deep THEN 5 ELSE 4))
      at(s, p) == Move(Position(x.be, s, p), [s |-> s, p |-> p])
  IN Concat([i \in 1..Len(short) |-> [p \in 1..Len(PosOf(x.be)) |-> at(short[i], PosOf(x.be)[p])]])
     \o [i \in 1..Len(long) |-> at(long[i], 1)]
IsX(t) == t = tId("x")
\* what is left of a text without quote characters and dots
Core(b, s) == SelectSeq(s, LAMBDA c : c # Quote(b) /\ c # 46)
IsDot(c) == c = 46
Pieces(s) == LET ps == FoldLeft(LAMBDA a, c : IF c = 46 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<<<>>>>, s)
             IN SelectSeq(ps, LAMBDA p : p # <<>>)
C02Fine(x) ==
  x.k = 0 \/
  LET s == x.g.s
      r == LastText(x)
      probe == Lex(x.be, LastText(Run(Empty(x.be), Position(x.be, T("x"), x.g.p))).s)
      at == CHOOSE i \in 1..Len(probe) : IsX(probe[i])
      got == Lex(x.be, r.s)
      n == Len(got) - Len(probe) + 1
      mid == SubSeq(got, at, at + n - 1)
      parts == SelectSeq(mid, LAMBDA t : t # DotT)
  IN /\ r.t = "txt"
     /\ n >= 0
     /\ SubSeq(got, 1, at - 1) = SubSeq(probe, 1, at - 1)
     /\ SubSeq(got, at + n, Len(got)) = SubSeq(probe, at + 1, Len(probe))
     /\ \A i \in 1..n : IF i % 2 = 1 THEN mid[i].t = "id" \/ mid[i] = tOp("*") ELSE mid[i] = DotT
     /\ n = 0 \/ n % 2 = 1
     /\ IF HasCode(s, Quote(x.be))
        THEN Core(x.be, Concat([i \in 1..Len(parts) |-> parts[i].s])) = Core(x.be, s)
        ELSE [i \in 1..Len(parts) |-> parts[i].s] = Pieces(s)
=============================================================================
