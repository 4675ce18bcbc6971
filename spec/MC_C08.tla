-------------------------------- MODULE MC_C08 --------------------------------
(* Every relation (and its other name) with every kind of value, and bare     *)
(* values.  Acceptance is given by a table, the text by the operator.         *)
EXTENDS MC
C08Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"sql", "mysql"}
C08Limit == 1
C08Start(b) == <<eNew("select_from", <<vS("t")>>), eNew("select_from", <<vS("s")>>), eNew("avg", <<vS("a")>>)>>
C08G(b) == <<>>
C08GStep(g, fx) == fx
\* name, operator, kinds it takes (o ordered, b bool, s text, l collection, n None)
Rels == <<
  <<"EQ", "EQUAL_TO", <<tOp("=")>>, {"o", "s", "b"}>>, <<"NE", "NOT_EQUAL_TO", <<tOp("!"), tOp("=")>>, {"o", "s", "b"}>>,
  <<"GT", "GRATHER_THAN", <<tOp(">")>>, {"o", "s"}>>, <<"GE", "GRATHER_THAN_OR_EQUAL_TO", <<tOp(">"), tOp("=")>>, {"o", "s"}>>,
  <<"LT", "LESS_THAN", <<tOp("<")>>, {"o", "s"}>>, <<"LE", "LESS_THAN_OR_EQUAL_TO", <<tOp("<"), tOp("=")>>, {"o", "s"}>>,
  <<"LIKE", "LIKE", <<W("LIKE")>>, {"s"}>>, <<"NOT_LIKE", "NOT_LIKE", <<NotT, W("LIKE")>>, {"s"}>>, <<"REGEXP", "REGEXP", <<W("REGEXP")>>, {"s"}>>,
  <<"IN", "IN", <<W("IN")>>, {"l"}>>, <<"NOT_IN", "NOT_IN", <<NotT, W("IN")>>, {"l"}>>,
  <<"IS", "IS", <<W("IS")>>, {"b", "n"}>>, <<"IS_NOT", "IS_NOT", <<W("IS"), NotT>>, {"b", "n"}>> >>
vBad(n) == [k |-> "bad", n |-> n]
L1 == vList(<<vI(1), vS("x")>>)
Vals == <<
  <<"s", vS("x")>>, <<"s", vS("50%")>>, <<"o", vI(3)>>, <<"o", vI(0)>>, <<"o", vDec(FALSE, <<49>>, <<53>>)>>, <<"o", [k |-> "float", neg |-> FALSE, ip |-> <<49>>, fp |-> <<53>>]>>,
  <<"o", [k |-> "date", y |-> 2020, m |-> 1, d |-> 2]>>,
  <<"o", [k |-> "dt", y |-> 2020, m |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, us |-> 0, tz |-> <<>>]>>,
  <<"o", [k |-> "dt", y |-> 2020, m |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, us |-> 6, tz |-> <<-1, 3, 30>>]>>,
  <<"b", vB(TRUE)>>, <<"b", vB(FALSE)>>, <<"n", [k |-> "none"]>>, <<"l", L1>>, <<"l", vTup(<<vI(1), vS("x")>>)>>, <<"l", vL("gen", <<vI(1), vS("x")>>)>>,
  <<"sql", vV(vS("x"))>>, <<"sql", vV(vI(1))>>, <<"sql", vV([k |-> "none"])>>, <<"sql", vV(L1)>>, <<"sql", vC("now()")>>, <<"sql", vR(vS("c.d"))>>, <<"sql", vO(2)>>, <<"sql", vO(3)>>,
  <<"y", [k |-> "bytes", s |-> <<97>>]>>, <<"d", vDict(<<<<vS("x"), vI(1)>>>>)>>,
  <<"z", vBad("object")>>, <<"z", vBad("complex")>>, <<"z", vBad("time")>> >>
\* text splits into characters and a dict into its keys when given to IN
Splits(v, ops) == v.k \in {"str", "dict", "bytes"} /\ "l" \in ops
Takes(ops, kind) == kind = "sql" \/ kind \in ops
Alias(r) == {Rels[r][1], Rels[r][2]}
\* ways to use a condition value v
Position(p, v) ==
  CASE p = 1 -> <<eCall(1, "where", <<vS("c"), v>>), eTxt(1)>>
    [] p = 2 -> <<eCallK(1, "having", <<>>, <<<<T("c"), v>>>>), eTxt(1)>>
    [] p = 3 -> <<eNew("Q", <<vDict(<<<<vS("c"), v>>>>)>>), eTxt(4)>>
    [] p = 4 -> <<eCall(1, "where", <<vTup(<<vTup(<<vS("c"), v>>)>>)>>), eTxt(1)>>
Where(p, toks) == CASE p \in {1, 4} -> DropHead(Part("select", toks, {"WHERE"}), 1) [] p = 2 -> DropHead(Part("select", toks, {"HAVING"}), 1) [] p = 3 -> toks
Bare == <<<<"s", <<tOp("=")>>>>, <<"o", <<tOp("=")>>>>, <<"b", <<tOp("=")>>>>, <<"n", <<W("IS")>>>>, <<"l", <<W("IN")>>>>>>
BareOp(v, kind) == LET w == IF v.k = "V" THEN v.v ELSE v IN
                   IF w.k = "none" THEN <<W("IS")>> ELSE IF w.k \in {"list", "tuple", "gen"} THEN <<W("IN")>> ELSE <<tOp("=")>>
C08Moves(x) ==
  LET ofRel(r, i) ==
        LET v == Vals[i][2]
            rel == [vRel(Rels[r][1], <<v>>) EXCEPT !.op = Rels[r][1]]
            relA == [k |-> "rel", op |-> Rels[r][1], al |-> Rels[r][2], a |-> <<v>>]
            ok == Takes(Rels[r][4], Vals[i][1])
        IN IF Splits(v, Rels[r][4]) THEN <<>>
           ELSE IF ok
           THEN [p \in 1..4 |-> Move(Position(p, IF p = 2 THEN relA ELSE rel), [w |-> "ok", p |-> p, op |-> Rels[r][3], v |-> v])]
           ELSE <<Move(<<eRel(rel), eRel(relA)>>, [w |-> "no", n |-> 2])>>
      bare(i) ==
        LET v == Vals[i][2] kind == Vals[i][1] IN
        IF kind \in {"y", "d", "z"} THEN <<Move(<<eCall(1, "where", <<vS("c"), v>>)>>, [w |-> "no", n |-> 1])>>
        ELSE [p \in 1..4 |-> Move(Position(p, v), [w |-> "ok", p |-> p, op |-> BareOp(v, kind), v |-> v])]
  IN Concat([r \in 1..Len(Rels) |-> Concat([i \in 1..Len(Vals) |-> ofRel(r, i)])]) \o Concat([i \in 1..Len(Vals) |-> bare(i)])
\* the value on its own (a SELECT in parentheses)
ValToks(x, v) == IF v.k = "obj" /\ Kind(x, v.id) = "select" THEN <<OpenP>> \o LexOf(x, v.id) \o <<CloseP>>
                 ELSE IF v.k = "obj" THEN LexOf(x, v.id)
                 ELSE Lex(x.be, Txt(x.h, x.be, IF v.k \in {"V", "C", "R"} THEN v ELSE vV(v)))
C08Fine(x) ==
  x.k = 0 \/
  IF x.g.w = "no" THEN \A i \in 0..(x.g.n - 1) : x.hist[Len(x.hist) - i][2] = [t |-> "exc", x |-> <<IA>>]
  ELSE LET r == LastText(x) IN
       r.t = "txt" /\ Where(x.g.p, Lex(x.be, r.s)) = <<tId("c")>> \o x.g.op \o ValToks(x, x.g.v)
=============================================================================
