-------------------------------- MODULE MC_C16 --------------------------------
(* All short histories of option calls on each kind of statement.  Ghost: the *)
(* state of each exclusive group and each option.                             *)
EXTENDS MC
C16Bes == IF Deep THEN {"sql", "mysql", "postgresql", "sqlite"} ELSE {"mysql"}
C16Limit == IF Deep THEN 5 ELSE 4
C16Start(b) == <<>>
C16G(b) == [k |-> "", on |-> <<>>]
\* method, word, group
Opts(k) == CASE k = "select" -> <<<<"sql_cache", "SQL_CACHE", 1>>, <<"sql_no_cache", "SQL_NO_CACHE", 1>>, <<"all", "ALL", 2>>, <<"distinct", "DISTINCT", 2>>, <<"distinctrow", "DISTINCTROW", 2>>,
                  <<"sql_small_result", "SQL_SMALL_RESULT", 3>>, <<"sql_big_result", "SQL_BIG_RESULT", 4>>, <<"sql_buffer_result", "SQL_BUFFER_RESULT", 5>>,
                  <<"straight_join", "STRAIGHT_JOIN", 6>>, <<"high_priority", "HIGH_PRIORITY", 7>>, <<"sql_calc_found_rows", "SQL_CALC_FOUND_ROWS", 8>>>>
             [] k \in {"insert", "update", "delete"} -> <<<<"ignore", "IGNORE", 1>>>>
             [] OTHER -> <<>>
C16GStep(g, fx) == IF fx.w = "kind" THEN [k |-> fx.k, on |-> [i \in 1..8 |-> ""]]
                   ELSE IF fx.w = "opt" THEN [g EXCEPT !.on[fx.gr] = fx.word] ELSE g
Make(k) == CASE k = "select" -> <<eNew("select_from", <<vS("t")>>)>> [] k = "insert" -> <<eNew("insert_into", <<vS("t")>>)>>
             [] k = "update" -> <<eNew("update", <<vS("t")>>), eCall(1, "allow_update_all", <<>>)>>
             [] k = "delete" -> <<eNew("delete_from", <<vS("t")>>), eCall(1, "allow_delete_all", <<>>)>>
Kinds == <<"select", "insert", "update", "delete">>
C16Moves(x) ==
  IF x.g.k = "" THEN [i \in 1..4 |-> Move(Make(Kinds[i]), [w |-> "kind", k |-> Kinds[i]])]
  ELSE LET os == Opts(x.g.k)
           opt(o, a, on) == Move(<<eCall(1, o[1], a)>>, [w |-> "opt", gr |-> o[3], word |-> IF on THEN o[2] ELSE ""])
           of(o) == <<opt(o, <<>>, TRUE), opt(o, <<vB(FALSE)>>, FALSE)>>
                    \o (IF o[3] <= 2 THEN <<opt(o, <<vB(TRUE)>>, TRUE)>> ELSE <<>>)
       IN Concat([i \in 1..Len(os) |-> of(os[i])])
          \o <<Move(<<eTxt(1), eCopy(1)>>, [w |-> "no"])>>
C16AtEnd(x) == <<eTxt(1)>>
Alphabet == <<"ALL", "DISTINCT", "DISTINCTROW", "HIGH_PRIORITY", "IGNORE", "SQL_BIG_RESULT", "SQL_BUFFER_RESULT", "SQL_CACHE", "SQL_CALC_FOUND_ROWS", "SQL_NO_CACHE", "SQL_SMALL_RESULT", "STRAIGHT_JOIN">>
Rest(k) == CASE k = "select" -> <<tOp("*"), W("FROM"), tId("t")>> [] k = "insert" -> <<W("INTO"), tId("t")>>
             [] k = "update" -> <<tId("t"), W("SET")>> [] k = "delete" -> <<W("FROM"), tId("t")>>
KeyW(k) == CASE k = "select" -> <<W("SELECT")>> [] k = "insert" -> <<W("INSERT")>> [] k = "update" -> <<W("UPDATE")>> [] k = "delete" -> <<W("DELETE")>>
C16Fine(x) ==
  x.g.k = "" \/
  LET on == SelectSeq(Alphabet, LAMBDA w : \E i \in 1..8 : x.g.on[i] = w)
  IN LexOf(x, 1) = KeyW(x.g.k) \o [i \in 1..Len(on) |-> W(on[i])] \o Rest(x.g.k)
=============================================================================
