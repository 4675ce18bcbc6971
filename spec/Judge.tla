-------------------------------- MODULE Judge --------------------------------
(* What a difference between the specification and the real library means.    *)
(* Each property looks at the two SQL texts through the dialect's lexer and   *)
(* compares only what the property speaks about.                              *)
EXTENDS SqlPuzzle, Lex

Statement == {"select", "insert", "update", "delete"}
WS(s) == {Tok("word", T(x)) : x \in s}
\* DO UPDATE SET and DO UPDATE are both accepted (known finding of C19)
Canon(toks) == LET cut(i) == /\ i > 2 /\ toks[i] = W("SET") /\ toks[i - 1] = W("UPDATE") /\ toks[i - 2] = W("DO")
               IN IF \E i \in 1..Len(toks) : cut(i)
                  THEN LET keep == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : ~cut(i))
                       IN [j \in 1..Len(keep) |-> toks[keep[j]]]
                  ELSE toks
Part(k, toks, heads) == IF k \in Statement THEN InClauses(k, toks, WS(heads)) ELSE toks
FromHeads(k) == CASE k \in {"select", "delete"} -> {"FROM"} [] k = "update" -> {"UPDATE"} [] OTHER -> {"INTO"}
CondHeads(k) == {"WHERE", "HAVING"} \cup FromHeads(k)
\* decimal numbers: trailing zeros after the point do not count
TrimNum(s) == IF ~HasCode(s, 46) THEN s
              ELSE LET n == {i \in 1..Len(s) : s[i] # 48}
                   IN SubSeq(s, 1, CHOOSE i \in n : \A j \in n : i >= j)
Lit(x) == \/ x.t \in {"str", "hex", "num", "bad"}
          \/ x.t = "word" /\ Upper(x.s) \in {T("NULL"), T("TRUE"), T("FALSE")}
          \/ x.t = "op" /\ x.s[1] \in {45, 40, 41, 44, 46}
Lits(toks) == LET s == SelectSeq(toks, Lit)
              IN [i \in 1..Len(s) |-> IF s[i].t = "num" THEN Tok("num", TrimNum(s[i].s)) ELSE s[i]]
Names(toks) == SelectSeq(toks, LAMBDA x : x.t \in {"id", "bad"} \/ (x.t = "op" /\ x.s[1] \in {46, 42, 34, 96}))
Strings(toks) == SelectSeq(toks, LAMBDA x : x.t \in {"str", "bad"} \/ (x.t = "op" /\ x.s[1] \in {39, 92, 59}))

Uniq(s) == FoldLeft(LAMBDA a, x : IF x \in Range(a) THEN a ELSE Append(a, x), <<>>, s)
DropHead(ts, n) == IF ts = <<>> THEN <<>> ELSE SubSeq(ts, 1 + n, Len(ts))
Conjuncts(ts) == Uniq(SplitAt(ts, IsAnd))
JoinWords == WS({"JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT", "RIGHT", "FULL"}) \cup {Comma}
IsJoinWord(x) == x \in JoinWords
IsOn(x) == x = W("ON")
OnParts(ts) == LET segs == SplitAt(ts, IsJoinWord)
               IN [i \in 1..Len(segs) |-> LET p == SplitAt(segs[i], IsOn) IN
                                          IF Len(p) < 2 THEN <<>> ELSE Conjuncts(p[2])]
Conds(k, toks) ==
  IF k \notin Statement THEN <<Conjuncts(toks)>>
  ELSE <<Conjuncts(DropHead(Part(k, toks, {"WHERE"}), 1)), Conjuncts(DropHead(Part(k, toks, {"HAVING"}), 1)),
         OnParts(Part(k, toks, FromHeads(k)))>>
SameBool(a, b) == IF a = b THEN TRUE
                  ELSE IF a = <<>> \/ b = <<>> THEN FALSE
                  ELSE LET n == Tree(b) IN TWellFormed(n) /\ TEquivalent(Tree(a), n)
CondClauses(k, toks) == IF k \notin Statement THEN <<toks>>
                        ELSE <<DropHead(Part(k, toks, {"WHERE"}), 1), DropHead(Part(k, toks, {"HAVING"}), 1)>>

\* do the expected and the observed text agree on what the property is about?
Agree(prop, k, x, y) ==
  CASE prop = "C01" -> Strings(x) = Strings(y)
    [] prop = "C02" -> Names(x) = Names(y)
    [] prop = "C03" -> Lits(x) = Lits(y)
    [] prop = "C04" -> (Part(k, x, {"WHERE"}) = <<>>) = (Part(k, y, {"WHERE"}) = <<>>)
    [] prop = "C05" -> Conds(k, x) = Conds(k, y)
    [] prop = "C06" -> LET a == CondClauses(k, x) b == CondClauses(k, y)
                       IN \A i \in 1..Len(a) : SameBool(a[i], b[i])
    [] prop \in {"C07", "C08"} -> Part(k, x, CondHeads(k)) = Part(k, y, CondHeads(k))
    [] prop = "C09" -> k = "insert" => Part(k, x, {"INTO", "VALUES"}) = Part(k, y, {"INTO", "VALUES"})
    [] prop = "C14" -> Part(k, x, FromHeads(k)) = Part(k, y, FromHeads(k))
    [] prop = "C16" -> Part(k, x, {"SELECT", "INSERT", "REPLACE", "UPDATE", "DELETE"})
                       = Part(k, y, {"SELECT", "INSERT", "REPLACE", "UPDATE", "DELETE"})
    [] prop = "C17" -> Part(k, x, {"LIMIT", "OFFSET"}) = Part(k, y, {"LIMIT", "OFFSET"})
    [] prop = "C18" -> Part(k, x, {"GROUP", "ORDER"}) = Part(k, y, {"GROUP", "ORDER"})
    [] prop \in {"C20", "C13", "C24", "C11", "C12", "C23"} -> TRUE
    [] prop = "C25" -> Part(k, x, {"SELECT", "DELETE"} \cup FromHeads(k))
                       = Part(k, y, {"SELECT", "DELETE"} \cup FromHeads(k))
    [] OTHER -> x = y
\* properties decided by re-running the history without what must not matter
Twinned == {"C11", "C12", "C23"}
=============================================================================
