-------------------------------- MODULE MC_C07 --------------------------------
(* Every collection of up to three (thorough: four) elements, None included,  *)
(* in every form and position.  The condition is evaluated by SQL's           *)
(* three-valued logic on rows holding listed values, another value and NULL.  *)
EXTENDS MC
C07Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"sql", "postgresql"}
C07Limit == 1
C07Start(b) == <<>>
C07G(b) == <<>>
C07GStep(g, fx) == fx
El(e) == CASE e = 0 -> [k |-> "none"] [] e = 1 -> vS("x") [] OTHER -> vI(e)
Els(l) == [i \in 1..Len(l) |-> El(l[i])]
Stepped == <<<<2, 4, 6>>, <<3, 2>>, <<9, 6, 3>>, <<2, 5>>, <<3, 5, 7, 9>>, <<2, 12, 22, 32>>>>
Num23(l) == \/ l # <<>> /\ \A i \in 1..Len(l) : l[i] = i + 1      \* a range
            \/ \E i \in 1..Len(Stepped) : Stepped[i] = l
\* the ways to say it: <<IN or NOT IN, value>>
Forms(l) ==
  LET e == Els(l)
      many == IF Len(l) # 1 THEN <<<<TRUE, vRel("IN", e)>>, <<FALSE, vRel("NOT_IN", e)>>>> ELSE <<>>
      rng == IF Num23(l) THEN <<<<TRUE, vL("range", e)>>, <<FALSE, vRel("NOT_IN", <<vL("range", e)>>)>>, <<TRUE, vRel("IN", <<vL("range", e)>>)>>>> ELSE <<>>
  IN <<<<TRUE, vList(e)>>, <<TRUE, vTup(e)>>, <<TRUE, vL("gen", e)>>, <<TRUE, vRel("IN", <<vList(e)>>)>>, <<TRUE, vRel("IN", <<vTup(e)>>)>>,
       <<TRUE, vRel("IN", <<vL("gen", e)>>)>>, <<FALSE, vRel("NOT_IN", <<vList(e)>>)>>, <<FALSE, vRel("NOT_IN", <<vTup(e)>>)>>,
       <<FALSE, vRel("NOT_IN", <<vL("gen", e)>>)>>>> \o many \o rng
Position(p, v) ==
  LET sel == eNew("select_from", <<vS("t")>>) IN
  CASE p = 1 -> <<sel, eCall(1, "where", <<vS("c"), v>>), eTxt(1), eTxt(1)>>
    [] p = 2 -> <<sel, eCallK(1, "having", <<>>, <<<<T("c"), v>>>>), eTxt(1)>>
    [] p = 3 -> <<eNew("Q", <<vDict(<<<<vS("c"), v>>>>)>>), eTxt(1)>>
    [] p = 4 -> <<sel, eCall(1, "join", <<vS("u")>>), eCall(1, "on", <<vS("c"), v>>), eTxt(1)>>
    [] p = 5 -> <<eNew("delete_from", <<vS("t")>>), eCall(1, "where", <<vList(<<vTup(<<vS("c"), v>>)>>)>>), eTxt(1)>>
C07Moves(x) ==
  LET ls == ListOf(Words({0, 1, 2, 3}, IF Deep THEN 4 ELSE 3))
      of(l) == LET fs == Forms(l) IN
               Concat([i \in 1..Len(fs) |->
                 LET ps == IF Len(l) <= 2 THEN <<1, 2, 3, 4, 5>> ELSE <<1>>
                 IN [j \in 1..Len(ps) |-> Move(Position(ps[j], fs[i][2]), [l |-> l, in |-> fs[i][1], p |-> ps[j]])]])
      \* long ones, without and with None
      run(n) == [i \in 1..n |-> i + 1]
      long(l) == LET fs == Forms(l) IN [i \in 1..9 |-> Move(Position(1, fs[i][2]), [l |-> l, in |-> fs[i][1], p |-> 1])]
  IN Concat([i \in 1..Len(ls) |-> of(ls[i])]) \o Concat([i \in 1..Len(Stepped) |-> of(Stepped[i])])
     \o Concat([i \in 1..4 |-> LET n == <<9, 33, 129, 1001>>[i] IN long(run(n)) \o long(run(n - 1) \o <<0>>) \o long(<<0, 0>> \o run(n - 1))])
ElTok(e) == CASE e = 0 -> W("NULL") [] e = 1 -> tStr("x") [] OTHER -> tNum(e)
IsComma(t) == t = Comma
ListToks(ts) == LET ps == SplitAt(Inner(ts), IsComma) IN [i \in 1..Len(ps) |-> ps[i][1]]
\* three-valued truth of a predicate on a row whose column holds the literal v
Not3(t) == CASE t = "T" -> "F" [] t = "F" -> "T" [] OTHER -> "U"
Pred(ts, v) ==
  LET neg == ts[2] = NotT
      rest == IF neg THEN SubSeq(ts, 4, Len(ts)) ELSE SubSeq(ts, 3, Len(ts))
      es == ListToks(rest)
      inn == IF v = W("NULL") THEN "U"
             ELSE IF \E i \in 1..Len(es) : es[i] = v THEN "T"
             ELSE IF \E i \in 1..Len(es) : es[i] = W("NULL") THEN "U" ELSE "F"
  IN IF ts[1] # tId("c") THEN "bad"
     ELSE IF Tail(ts) = <<W("IS"), W("NULL")>> THEN (IF v = W("NULL") THEN "T" ELSE "F")
     ELSE IF Tail(ts) = <<W("IS"), NotT, W("NULL")>> THEN (IF v = W("NULL") THEN "F" ELSE "T")
     ELSE IF ts[2] # W("IN") /\ (~neg \/ ts[3] # W("IN")) THEN "bad"
     ELSE IF neg THEN Not3(inn) ELSE inn
RECURSIVE Ev(_, _)
Ev(n, v) ==
  CASE n.t = "atom" -> Pred(n.x, v)
    [] n.t = "not" -> Not3(Ev(n.x[1], v))
    [] OTHER -> LET rs == {Ev(n.x[i], v) : i \in 1..Len(n.x)} IN
                IF "bad" \in rs THEN "bad"
                ELSE IF n.t = "or" THEN (IF "T" \in rs THEN "T" ELSE IF "U" \in rs THEN "U" ELSE "F")
                ELSE (IF "F" \in rs THEN "F" ELSE IF "U" \in rs THEN "U" ELSE "T")
Cond(x, p, toks) == CASE p \in {1, 5} -> DropHead(Part(Kind(x, 1), toks, {"WHERE"}), 1)
                      [] p = 2 -> DropHead(Part("select", toks, {"HAVING"}), 1)
                      [] p = 3 -> toks
                      [] p = 4 -> SplitAt(toks, IsOn)[2]
C07Fine(x) ==
  x.k = 0 \/
  LET r == LastText(x)
      l == x.g.l
      some == SelectSeq(l, LAMBDA e : e # 0)
      null == Len(some) # Len(l)
      listed == {ElTok(some[i]) : i \in 1..Len(some)}
      toks == Cond(x, x.g.p, Lex(x.be, r.s))
  IN IF l = <<>> THEN r.t = "exc" /\ r.x = <<IA>>
     ELSE /\ r.t = "txt"
          /\ \E n \in {Tree(toks)} : \A row \in {W("NULL"), tStr("x"), tNum(2), tNum(3), tNum(9)} :
                (Ev(n, row) = "T") <=> IF row = W("NULL") THEN x.g.in /\ null
                                       ELSE (row \in listed) = x.g.in
          \* every element once per occurrence, in order
          /\ SelectSeq(toks, LAMBDA t : t.t \in {"str", "num"}) = [i \in 1..Len(some) |-> ElTok(some[i])]
=============================================================================
