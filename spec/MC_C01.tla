-------------------------------- MODULE MC_C01 --------------------------------
(* Every short string over the characters that matter, in every value         *)
(* position: the text read back by the dialect's lexer holds one literal      *)
(* with exactly that content, and nothing else changes.                       *)
EXTENDS MC
C01Bes == {"sql", "mysql", "postgresql", "sqlite"}
C01Limit == 1
C01Start(b) == <<>>
C01G(b) == <<>>
C01GStep(g, fx) == fx
Chars(b) == {39, 92, Quote(b), 10, 97, 46} \cup (IF Deep THEN {32, 34, 110} ELSE {})
Positions(s) ==
  LET v == vT(s) IN <<
    <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), v>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "having", <<vS("c"), vRel("LIKE", <<v>>)>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), vList(<<v, vI(2)>>)>>), eTxt(1)>>,
    <<eNew("insert_into", <<vS("t")>>), eCallK(1, "values", <<>>, <<<<T("c"), v>>>>), eTxt(1)>>,
    <<eNew("update", <<vS("t")>>), eCall(1, "allow_update_all", <<>>), eCall(1, "set", <<vS("c"), v>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "into_outfile", <<v>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "into_outfile", <<vS("f")>>), eCall(1, "fields_terminated_by", <<v>>), eTxt(1)>>,
    <<eNew("group_concat", <<vS("c")>>), eCall(1, "separator", <<v>>), eTxt(1)>>,
    <<eVal(vV(vTup(<<v, vS("z")>>)))>>,
    <<eVal(vV(v))>>,
    \* an instance of a subclass of str
    <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), v @@ [sub |-> TRUE]>>), eTxt(1)>>,
    <<eNew("insert_into", <<vS("t")>>), eCall(1, "values", <<vS("c"), v @@ [sub |-> TRUE]>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "into_outfile", <<vS("f")>>), eCall(1, "lines_terminated_by", <<v>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "optionally_enclosed_by", <<v>>), eCall(1, "into_outfile", <<vS("f")>>), eCall(1, "fields_terminated_by", <<vS("g")>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), vRel("NE", <<vV(v)>>)>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), vRel("NOT_IN", <<v, [k |-> "none"]>>)>>), eTxt(1)>>,
    <<eNew("select_from", <<vS("t")>>), eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<vS("c"), vV(v)>>), eTxt(1)>>,
    <<eNew("delete_from", <<vS("t")>>), eCall(1, "where", <<vS("c"), vRel("REGEXP", <<v>>)>>), eTxt(1)>>,
    <<eNew("select", <<vV(v)>>), eTxt(1)>> >>
C01Moves(x) ==
  LET short == ListOf(Words(Chars(x.be), 2))
      long == ListOf(Words(Chars(x.be), IF Deep THEN 4 ELSE 3) \ Words(Chars(x.be), 2))
      pos(s, ps) == [i \in 1..Len(ps) |-> Move(Positions(s)[ps[i]], [s |-> s, p |-> ps[i]])]
      \* patterns, and long strings with the special character at the end
      more == <<<<92, 37>>, <<92, 95>>, <<97, 92, 37, 39>>, <<37, 39>>, <<32, 32>>, <<97, 32, 32, 32, 97>>, <<92, 92, 37>>, <<92, 110>>, <<92, 114>>, <<92, 116>>, <<92, 48>>, <<92, 92, 110>>, <<13>>, <<13, 10>>, <<9>>, <<0>>, <<26>>, <<8>>,
                <<37, 115>>, <<37, 40, 99, 41, 115>>, <<123, 125>>, <<45, 45>>, <<47, 42>>, <<59>>, <<34>>, <<96>>, <<39, 45, 39>>, <<233>>, <<8232>>, <<69, 39, 120, 39>>, <<97, 92, 92>>, <<110, 117, 108, 108>>, <<97, 32>>, <<32, 97>>, <<49>>, <<40, 97, 41>>>>
      tails == <<<<97, 39>>, <<92>>, <<10, 97>>>>
      lens == <<70, 260, 1030, 4100>>
  IN Concat([i \in 1..Len(more) |-> pos(more[i], [n \in 1..19 |-> n])])
     \o Concat([i \in 1..4 |-> Concat([j \in 1..3 |-> pos([n \in 1..lens[i] |-> 120] \o tails[j], <<1, 10>>)])])
     \o Concat([i \in 1..Len(short) |-> pos(short[i], [n \in 1..19 |-> n])])
     \o Concat([i \in 1..Len(long) |-> pos(long[i], <<10>>)])
\* tokens of the same position holding the plain literal 'x'
Probe(x, p) == Lex(x.be, LastText(Run(Empty(x.be), Positions(T("x"))[p])).s)
IsX(t) == t = Tok("str", T("x"))
C01Fine(x) ==
  x.k = 0 \/
  LET s == x.g.s
      r == LastText(x)
      probe == Probe(x, x.g.p)
      at == CHOOSE i \in 1..Len(probe) : IsX(probe[i])
      got == Lex(x.be, r.s)
      n == Len(got) - Len(probe) + 1       \* tokens in place of the literal
      mid == SubSeq(got, at, at + n - 1)
  IN /\ r.t = "txt"
     /\ n >= 1
     /\ SubSeq(got, 1, at - 1) = SubSeq(probe, 1, at - 1)
     /\ SubSeq(got, at + n, Len(got)) = SubSeq(probe, at + 1, Len(probe))
     /\ IF IsReference(x.be, s)
        THEN /\ \A i \in 1..n : IF i % 2 = 1 THEN mid[i].t = "id" \/ mid[i] = Tok("op", <<42>>) ELSE mid[i] = DotT
             /\ n % 2 = 1
        ELSE mid = <<Tok("str", s)>>
=============================================================================
