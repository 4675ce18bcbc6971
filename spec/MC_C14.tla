-------------------------------- MODULE MC_C14 --------------------------------
(* All short histories of joins: kinds, targets, aliases, conditions, further *)
(* tables.  Ghost: per table the joins as given.  What is left of them is     *)
(* computed by going through the joins from the point of view of each one.    *)
EXTENDS MC
C14Bes == IF Deep THEN {"sql", "postgresql"} ELSE {"postgresql"}
C14Limit == IF Deep THEN 4 ELSE 3
C14Start(b) == <<eNew("select_from", <<vS("t")>>)>>
C14G(b) == <<[t |-> "t", js |-> <<>>]>>
C14GStep(g, fx) == CASE fx.w = "joins" -> [g EXCEPT ![Len(g)].js = @ \o fx.js] [] fx.w = "join" -> [g EXCEPT ![Len(g)].js = Append(@, fx.j)]
                     [] fx.w = "table" -> Append(g, [t |-> fx.t, js |-> <<>>])
                     [] OTHER -> g
Kinds == <<"join", "inner_join", "left_join", "right_join", "full_join">>
KindWords(k) == CASE k \in {"join", "inner_join"} -> <<W("JOIN")>> [] k = "left_join" -> <<W("LEFT"), W("JOIN")>>
                  [] k = "right_join" -> <<W("RIGHT"), W("JOIN")>> [] k = "full_join" -> <<W("FULL"), W("JOIN")>>
\* targets: argument, tokens
Targets == <<<<vS("u"), <<tId("u")>>>>, <<vTup(<<vS("u"), vS("x")>>), <<tId("u"), W("AS"), tId("x")>>>>,
             <<vDict(<<<<vS("v"), vS("x")>>>>), <<tId("v"), W("AS"), tId("x")>>>>,
             <<vTup(<<vS("u"), vS("u")>>), <<tId("u"), W("AS"), tId("u")>>>>>>
\* conditions: calls, tokens, what they say
Ons == <<<<<<>>, <<>>, 0>>,
         <<<<eCall(1, "on", <<vS("a"), vS("b")>>)>>, <<tId("a"), tOp("="), tId("b")>>, 1>>,
         <<<<eCallK(1, "on", <<>>, <<<<T("b"), vS("a")>>>>)>>, <<tId("b"), tOp("="), tId("a")>>, 1>>,
         <<<<eCall(1, "on", <<vS("a"), vRel("GT", <<vI(1)>>)>>), eCall(1, "on", <<vS("b"), vI(2)>>)>>, <<tId("a"), tOp(">"), tNum(1), AndT, tId("b"), tOp("="), tNum(2)>>, 2>> >>
\* many joins: different ones, the same over and over in changing kinds
AName(i) == T("a") \o Dec(i, 2)
Far(i, k, o) == <<<<eCall(1, Kinds[k], <<vTup(<<vS("u"), vT(AName(i))>>)>>)>> \o Ons[o][1], [k |-> KindWords(Kinds[k]), t |-> <<tId("u"), W("AS"), Tok("id", AName(i))>>, o |-> Ons[o][2], m |-> Ons[o][3]]>>
Row14(l) == Final(Concat([i \in 1..Len(l) |-> l[i][1]]), [w |-> "joins", js |-> [i \in 1..Len(l) |-> l[i][2]]])
Many14 == Concat([n \in 1..3 |-> LET m == <<9, 25, 50>>[n] IN <<
  Row14([i \in 1..m |-> Far(m + 1 - i, 1 + (i % 4), 1 + (i % 3))]),
  Row14([i \in 1..m |-> Far(1, IF i = m THEN 1 ELSE 3, 2)]),
  Row14([i \in 1..m |-> Far(1, IF i = m THEN 4 ELSE 3, 2)]),
  Row14([i \in 1..m |-> Far(i % 5, 3 + (i % 2), 1 + (i % 2))]) >>])
C14Moves(x) ==
  LET few == ~Deep
      js == {<<k, t, o>> : k \in 1..(IF x.be = "postgresql" THEN 5 ELSE 4), t \in (IF few THEN {1, 2} \cup (IF x.k = 0 THEN {4} ELSE {}) ELSE {1, 2, 3, 4}), o \in (IF few THEN {1, 2, 3} ELSE {1, 2, 3, 4})}
      use == IF x.k = 0 /\ few THEN {j \in js : j[1] # 2 /\ j[3] # 3}
             ELSE IF few THEN {j \in js : j[3] # 3 \/ j[2] = 1} ELSE {j \in js : j[1] # 2 \/ j[2] = 1}
      mk(j) == Move(<<eCall(1, Kinds[j[1]], <<Targets[j[2]][1]>>)>> \o Ons[j[3]][1],
                    [w |-> "join", j |-> [k |-> KindWords(Kinds[j[1]]), t |-> Targets[j[2]][2], o |-> Ons[j[3]][2], m |-> Ons[j[3]][3]]])
      l == ListOf(use)
      n == Len(x.g)
  IN [i \in 1..Len(l) |-> mk(l[i])]
     \o (IF n < 3 THEN <<Move(<<eCall(1, "from_", <<vS(<<"s", "r">>[n])>>)>>, [w |-> "table", t |-> <<"s", "r">>[n]])>> ELSE <<>>)
     \o <<Move(<<eTxt(1)>>, [w |-> "no"])>>
     \o (IF x.k > 0 THEN <<>> ELSE Many14 \o <<
          Final(<<eNew("select", <<vS("a")>>), eCall(2, "join", <<vS("u")>>)>>, [w |-> "no"]),
          Final(<<eNew("select", <<vS("a")>>), eCall(2, "on", <<vS("a"), vS("b")>>)>>, [w |-> "no"]),
          Final(<<eNew("delete", <<vS("a")>>), eCall(2, "left_join", <<vS("u")>>)>>, [w |-> "no"]),
          Final(<<eCall(1, "on", <<vS("a"), vS("b")>>)>>, [w |-> "no"]),
          Final(<<eCall(1, "join", <<vS("u")>>), eCall(1, "from_", <<vS("s")>>), eCall(1, "on", <<vS("a"), vS("b")>>)>>, [w |-> "off"])>>)
C14AtEnd(x) == <<eTxt(1)>>
Alike(a, b) == a.t = b.t /\ a.m = b.m
InnerJ(j) == j.k = <<W("JOIN")>>
\* joins of one table as they show: a group of alike ones stands where its first stands
Shown(js) ==
  LET first(i) == \A h \in 1..(i - 1) : ~Alike(js[h], js[i])
      group(i) == SelectSeq(js, LAMBDA j : Alike(j, js[i]))
      of(i) == LET g == group(i) IN
               IF \E j \in 1..Len(g) : InnerJ(g[j]) THEN <<[js[i] EXCEPT !.k = <<W("JOIN")>>]>>
               ELSE IF \A j \in 1..Len(g) : g[j].k = g[1].k THEN <<js[i]>> ELSE g
  IN Concat([i \in 1..Len(js) |-> IF first(i) THEN of(i) ELSE <<>>])
JToks(j) == j.k \o j.t \o (IF j.o = <<>> THEN <<>> ELSE <<W("ON")>> \o j.o)
TToks(t) == LET s == Shown(t.js) IN <<tId(t.t)>> \o Concat([i \in 1..Len(s) |-> JToks(s[i])])
C14Fine(x) ==
  LET ts == Part("select", LexOf(x, 1), {"FROM"})
      want == FoldLeft(LAMBDA a, t : (IF a = <<>> THEN <<W("FROM")>> ELSE a \o <<Comma>>) \o TToks(t), <<>>, x.g)
      errs == {i \in 1..Len(x.hist) : x.hist[i][2].t = "exc"}
  IN IF errs # {} THEN errs = {CHOOSE i \in errs : TRUE} /\ \A i \in errs : x.hist[i][2].x = <<IQ>> /\ x.k = C14Limit
     ELSE x.g = <<>> \/ ts = want
=============================================================================
