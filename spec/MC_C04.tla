-------------------------------- MODULE MC_C04 --------------------------------
(* DELETE and UPDATE statements with a condition object which may be filled   *)
(* later, and copies of them.  Ghost per statement: the last allow/forbid     *)
(* call, how many conditions it was given, whether it holds the shared Q.     *)
EXTENDS MC
C04Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"sql", "mysql"}
C04Limit == IF Deep THEN 4 ELSE 3
\* 1 delete, 2 update, 3 an empty Q, 4 a Q with a condition, 5 Not of nothing
C04Start(b) == <<eNew("delete_from", <<vS("t")>>), eNew("update", <<vS("t")>>), eNew("Q", <<>>), eNew("Q", <<vS("z"), vI(1)>>),
                 eNew("Not", <<>>), eCall(2, "set", <<vS("s"), vI(1)>>)>>
Stmt(k) == [k |-> k, al |-> FALSE, n |-> 0, q |-> FALSE]
C04G(b) == [s |-> <<Stmt("delete"), Stmt("update"), Stmt("q"), Stmt("q"), Stmt("q")>>, full |-> FALSE]
C04GStep(g, fx) ==
  CASE fx[1] = "allow" -> [g EXCEPT !.s[fx[2]].al = TRUE]
    [] fx[1] = "forbid" -> [g EXCEPT !.s[fx[2]].al = FALSE]
    [] fx[1] = "cond" -> [g EXCEPT !.s[fx[2]].n = @ + 1]
    [] fx[1] = "hold" -> [g EXCEPT !.s[fx[2]].q = TRUE]
    [] fx[1] = "fill" -> [g EXCEPT !.full = TRUE]
    [] fx[1] = "copy" -> LET o == g.s[fx[2]] IN
                         [g EXCEPT !.s = Append(@, [o EXCEPT !.n = @ + (IF o.q /\ g.full THEN 1 ELSE 0), !.q = FALSE])]
    [] OTHER -> g
Allow(k) == IF k = "delete" THEN "allow_delete_all" ELSE "allow_update_all"
Forbid(k) == IF k = "delete" THEN "forbid_delete_all" ELSE "forbid_update_all"
Stmts(x) == {i \in 1..Len(x.g.s) : x.g.s[i].k # "q"}
C04Moves(x) ==
  LET of(i) == LET k == x.g.s[i].k IN <<
        Move(<<eCall(i, Allow(k), <<>>)>>, <<"allow", i>>),
        Move(<<eCall(i, Forbid(k), <<>>)>>, <<"forbid", i>>),
        Move(<<eCall(i, "where", <<vS("c"), vI(1)>>), eTxt(i)>>, <<"cond", i>>),
        Move(<<eCall(i, "where", <<vDict(<<>>)>>), eCall(i, "where", <<>>), eCall(i, "where", <<vList(<<>>)>>), eCall(i, "where", <<vTup(<<>>)>>)>>, <<"no", i>>),
        Move(<<eTxt(i), eCall(i, "where", <<vO(5)>>), eTxtAs(i, "tosql")>>, <<"no", i>>),
        Move(<<eCall(i, "where", <<vO(3)>>), eTxt(i)>>, <<"hold", i>>),
        Move(<<eCall(i, "where", <<vO(4), vO(5)>>)>>, <<"cond", i>>),
        Move(<<eCall(i, "where", <<vC("x")>>)>>, <<"cond", i>>),
        Move(<<eCall(i, "ignore", <<>>), eTxt(i), eTxtAs(i, "repr")>>, <<"no", i>>),
        \* the condition of a join is none of the statement
        Move(<<eCall(i, "left_join", <<vS("u")>>), eCall(i, "on", <<vS("t.a"), vS("u.a")>>), eTxt(i)>>, <<"no", i>>),
        Move(<<eCall(i, "ignore", <<vB(FALSE)>>)>> \o (IF k = "update" THEN <<eCall(i, "set", <<vS("c"), vI(1)>>), eCall(i, "table", <<vTup(<<vS("v"), vS("w")>>)>>)>>
                                                       ELSE <<eCall(i, "delete", <<vS("t")>>), eCall(i, "from_table", <<vS("v"), vS("w")>>)>>) \o <<eTxt(i)>>, <<"no", i>>),
        Move(<<eCopy(i), eTxt(Len(x.hd) + 1)>>, <<"copy", i>>) >>
  IN Concat([j \in 1..Cardinality(Stmts(x)) |-> of(ListOf(Stmts(x))[j])])
     \o <<Move(<<eCall(3, "where", <<vS("w"), vI(2)>>)>>, <<"fill", 3>>)>>
C04AtEnd(x) == LET s == ListOf(Stmts(x)) IN [j \in 1..Len(s) |-> eTxt(s[j])]
C04Fine(x) ==
  \A i \in Stmts(x) :
    LET o == x.g.s[i]
        t == TextOf(x, i)
        cond == o.n > 0 \/ (o.q /\ x.g.full)
    IN /\ Raises(t) <=> ~(cond \/ o.al)
       /\ Raises(t) => ErrNames(t) = {IF o.k = "delete" THEN "ConfirmDeleteAllException" ELSE "ConfirmUpdateAllException"}
       /\ ~Raises(t) => (cond <=> W("WHERE") \in Range(Lex(x.be, t)))
=============================================================================
