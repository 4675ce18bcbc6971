-------------------------------- MODULE MC_C19 --------------------------------
(* All short histories of configure calls (names in any case, unknown ones),  *)
(* upserts, FULL JOINs and renderings of queries made before.  Ghost: the     *)
(* backend and what each upsert left.  Texts are read in the ghost's dialect. *)
EXTENDS MC
C19Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C19Limit == IF Deep THEN 5 ELSE 4
C19Start(b) == <<eNew("select_from", <<vS("t.u")>>), eCall(1, "where", <<vS("b"), vB(TRUE)>>), eCall(1, "where", <<vS("f"), vB(FALSE)>>),
                 eCall(1, "where", <<vS("c"), vV([k |-> "bytes", s |-> <<97, 255>>])>>), eCall(1, "where", <<vS("d"), vT(<<92, 39, 10>>)>>),
                 eNew("insert_into", <<vS("t")>>), eCall(2, "values", <<vS("a"), vI(1)>>)>>
C19G(b) == [be |-> b, odku |-> FALSE, conf |-> FALSE, repl |-> FALSE, fj |-> FALSE, ex |-> ""]
C19GStep(g, fx) == fx
ConfNames == <<"sql", "MySQL", "mysql", "PostgreSQL", "SQLITE", "SqL", "oracle", "", "mysql ", "postgres">>
Meant(n, b) == CASE n \in {"sql", "SqL"} -> "sql" [] n \in {"MySQL", "mysql"} -> "mysql" [] n = "PostgreSQL" -> "postgresql" [] n = "SQLITE" -> "sqlite" [] OTHER -> b
Known(n) == n \in {"sql", "SqL", "MySQL", "mysql", "PostgreSQL", "SQLITE"}
\* the three ways of calling the upsert and what they do per backend
UpsArgs == << <<vS("b"), vI(2)>>, <<vS("k"), vDict(<<<<vS("b"), vI(2)>>>>)>>, <<>> >>
UpsOut(g, i) ==
  CASE g.be = "sql" -> g
    [] g.be = "mysql" -> (IF i = 1 THEN [g EXCEPT !.odku = TRUE] ELSE IF i = 2 THEN [g EXCEPT !.ex = IA] ELSE g)
    [] g.be = "sqlite" -> (IF i = 3 THEN [g EXCEPT !.repl = TRUE] ELSE [g EXCEPT !.ex = "Exception"])
    [] g.be = "postgresql" -> (IF i = 2 THEN [g EXCEPT !.conf = TRUE] ELSE IF i = 1 THEN [g EXCEPT !.ex = IA] ELSE [g EXCEPT !.ex = IQ])
C19Moves(x) ==
  LET g == x.g
      ups(i) == LET r == UpsOut(g, i) ev == <<eCall(2, "on_duplicate_key_update", UpsArgs[i])>> IN IF r.ex = "" THEN Move(ev, r) ELSE Final(ev, r)
      conf(n) == Move(<<eConf(n)>>, [g EXCEPT !.be = Meant(n, @)])
      fj == LET ev == <<eCall(1, "full_join", <<vS("v")>>)>> IN IF g.be = "postgresql" THEN Move(ev, [g EXCEPT !.fj = TRUE]) ELSE Final(ev, [g EXCEPT !.ex = IQ])
      ns == IF Deep \/ x.k = 0 THEN ConfNames ELSE <<"MySQL", "PostgreSQL", "SQLITE", "SqL", "oracle">>
  IN [i \in 1..Len(ns) |-> conf(ns[i])] \o [i \in 1..3 |-> ups(i)] \o <<fj, Move(<<eTxt(1), eTxt(2)>>, g)>>
     \* configured or rendered by another thread
     \o (IF x.k <= 1 THEN <<Move(<<Th(eConf("PostgreSQL")), eTxt(1)>>, [g EXCEPT !.be = "postgresql"]), Move(<<Th(eConf("sql"))>>, [g EXCEPT !.be = "sql"]), Move(<<Th(eTxt(1)), Th(eTxt(2))>>, g)>> ELSE <<>>)
C19AtEnd(x) == <<eTxt(1), eTxt(2)>>
\* the dialects, written out
BoolTok(b, v) == IF b = "postgresql" THEN W(IF v THEN "true" ELSE "false") ELSE tNum(IF v THEN 1 ELSE 0)
BytesTok(b) == IF b = "postgresql" THEN Tok("str", <<92, 120, 54, 49, 102, 102>>) ELSE Tok("hex", <<54, 49, 102, 102>>)
SelToks(g) ==
  <<W("SELECT"), tOp("*"), W("FROM"), tId("t"), DotT, tId("u")>> \o (IF g.fj THEN <<W("FULL"), W("JOIN"), tId("v")>> ELSE <<>>)
  \o <<W("WHERE"), tId("b"), tOp("="), BoolTok(g.be, TRUE), AndT, tId("f"), tOp("="), BoolTok(g.be, FALSE), AndT,
       tId("c"), tOp("="), BytesTok(g.be), AndT, tId("d"), tOp("="), Tok("str", <<92, 39, 10>>)>>
InsToks(g) ==
  <<W(IF g.repl THEN "REPLACE" ELSE "INSERT"), W("INTO"), tId("t"), OpenP, tId("a"), CloseP, W("VALUES"), OpenP, tNum(1), CloseP>>
  \o (IF g.odku THEN <<W("ON"), W("DUPLICATE"), W("KEY"), W("UPDATE"), tId("b"), tOp("="), tNum(2)>> ELSE <<>>)
  \o (IF g.conf THEN <<W("ON"), W("CONFLICT"), OpenP, tId("k"), CloseP, W("DO"), W("UPDATE"), tId("b"), tOp("="), tNum(2)>> ELSE <<>>)
C19Fine(x) ==
  LET g == x.g
      seen(e) == x.hist[e][1].e \in {"call", "new"}
      errs == {i \in 1..Len(x.hist) : x.hist[i][2].t = "exc" /\ seen(i)}
      confs == {i \in 1..Len(x.hist) : x.hist[i][1].e = "conf"}
      knownCode == {T(ConfNames[i]) : i \in {j \in 1..Len(ConfNames) : Known(ConfNames[j])}}
  IN /\ x.be = g.be
     /\ IF g.ex = "" THEN errs = {} ELSE errs # {} /\ \A i \in errs : x.hist[i][2].x = <<g.ex>>
     /\ \A i \in confs : x.hist[i][2] = IF x.hist[i][1].n \in knownCode THEN [t |-> "ok"] ELSE [t |-> "exc", x |-> <<"Exception">>]
     /\ Lex(g.be, TextOf(x, 1)) = SelToks(g)
     /\ Canon(Lex(g.be, TextOf(x, 2))) = InsToks(g)
=============================================================================
