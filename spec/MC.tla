---------------------------------- MODULE MC ----------------------------------
(* Common part of the model checking modules MC_Cxx.                          *)
(* A state st carries the state of the specification (h, be, hd), a ghost g   *)
(* and the history so far.  Moves(st) lists the possible moves; each is a     *)
(* list of public calls and observations (ev) together with what it means for *)
(* the ghost (fx).  Fine(st) is the property, stated over the ghost and the   *)
(* texts as a database reads them.  Every maximal history is printed with the *)
(* outcomes the specification demands, and replayed on the real code.         *)
EXTENDS Judge, Json, IOUtils
CONSTANTS Bes,          \* backends to start with
          Limit,        \* number of moves
          Start(_),     \* backend -> calls made at the beginning
          GInit(_),     \* backend -> ghost after them
          Moves(_),     \* state -> sequence of [ev, fx]
          GStep(_, _),  \* ghost, fx -> ghost
          Fine(_),      \* state -> BOOLEAN
          AtEnd(_)      \* state -> observations made at the end of a history
VARIABLES st, bad
vars == <<st, bad>>
Deep == IOEnv.TIER = "thorough"

(* ---- values ---- *)
vT(x) == [k |-> "str", s |-> x]
vS(x) == [k |-> "str", s |-> T(x)]
vI(n) == [k |-> "int", s |-> IF n < 0 THEN <<45>> \o Dec(0 - n, 1) ELSE Dec(n, 1)]
vB(b) == [k |-> "bool", b |-> b]
vC(x) == [k |-> "C", s |-> T(x)]
vV(v) == [k |-> "V", v |-> v]
vR(v) == [k |-> "R", v |-> v]
vO(i) == [k |-> "obj", id |-> i]
vL(k, es) == [k |-> k, e |-> es]
vList(es) == vL("list", es)
vTup(es) == vL("tuple", es)
vDict(ps) == [k |-> "dict", d |-> ps]
vODict(ps) == [k |-> "odict", d |-> ps]
vRel(op, a) == [k |-> "rel", op |-> op, a |-> a]
vDec(neg, ip, fp) == [k |-> "dec", neg |-> neg, ip |-> ip, fp |-> fp]
(* ---- events ---- *)
eNew(f, a) == [e |-> "new", f |-> f, a |-> a, kw |-> <<>>]
eNewK(f, a, kw) == [e |-> "new", f |-> f, a |-> a, kw |-> kw]
eCall(o, f, a) == [e |-> "call", o |-> o, f |-> f, a |-> a, kw |-> <<>>]
eCallK(o, f, a, kw) == [e |-> "call", o |-> o, f |-> f, a |-> a, kw |-> kw]
eOp(o, f, v) == [e |-> "op", o |-> o, f |-> f, a |-> <<v>>]
eCopy(o) == [e |-> "copy", o |-> o]
eConf(n) == [e |-> "conf", n |-> T(n)]
eTxt(o) == [e |-> "txt", o |-> o, f |-> "str"]
eTxtAs(o, f) == [e |-> "txt", o |-> o, f |-> f]
eVal(v) == [e |-> "val", a |-> <<v>>, f |-> "str"]
eEq(a, b) == [e |-> "eq", a |-> <<vO(a), vO(b)>>]
eHas(o, n, w) == [e |-> "has", o |-> o, n |-> T(n), w |-> w]
eRel(v) == [e |-> "rel", a |-> <<v>>]
eMut(v, f) == [e |-> "mut", a |-> <<v>>, f |-> f]
\* schedules (no meaning in the specification, where calls are atomic): e runs in a thread of its own; e is preempted after
\* n lines of code by another thread which runs the event after it; so for every line, again and again; o is observed and
\* that is interrupted by an exception after line n (0: after every line)
Th(e) == e @@ [th |-> TRUE]
At(e, n) == e @@ [at |-> n]
Sw(e) == e @@ [sw |-> IF Deep THEN 1 ELSE 4]
eCut(o, f, n) == [e |-> "cut", o |-> o, f |-> f, n |-> n]
Move(ev, fx) == [ev |-> ev, fx |-> fx, fin |-> FALSE]
\* a move after which nothing follows
Final(ev, fx) == [ev |-> ev, fx |-> fx, fin |-> TRUE]

(* ---- execution ---- *)
Outc(s) == IF s.err = "" THEN [t |-> "ok"] ELSE [t |-> "exc", x |-> <<s.err>>]
TxtOut(t) == IF Raises(t) THEN [t |-> "exc", x |-> SetToSeq(ErrNames(t))] ELSE [t |-> "txt", s |-> t]
Changing == {"new", "call", "op", "copy", "conf"}
Exec(x, e) ==
  IF e.e \in Changing
  THEN LET s == Step(x.h, x.be, x.hd, e)
       IN [x EXCEPT !.h = s.h, !.be = s.be, !.hd = IF s.new = 0 THEN @ ELSE Append(@, s.new),
                    !.hist = Append(@, <<e, Outc(s)>>), !.err = s.err]
  ELSE LET o == CASE e.e = "txt" -> TxtOut(ObjTxt(x.h, x.be, x.hd[e.o]))
                  [] e.e = "val" -> TxtOut(Txt(x.h, x.be, Deref(e.a[1], x.hd)))
                  [] e.e = "eq" -> [t |-> "eq", b |-> EqPy(x.h, x.be, Deref(e.a[1], x.hd), Deref(e.a[2], x.hd))]
                  [] e.e = "has" -> [t |-> "bool", b |-> Has(x.h, x.be, x.h[x.hd[e.o]], e.n, DerefAll(e.w, x.hd))]
                  [] e.e = "rel" -> IF ArgOk(Deref(e.a[1], x.hd)) THEN [t |-> "ok"] ELSE [t |-> "exc", x |-> <<IA>>]
                  [] OTHER -> [t |-> "ok"]
       IN [x EXCEPT !.hist = Append(@, <<e, o>>)]
Run(x, evs) == FoldLeft(Exec, x, evs)
Empty(b) == [h |-> <<>>, be |-> b, hd |-> <<>>, hist |-> <<>>, err |-> "", g |-> <<>>, k |-> 0, b0 |-> b]
\* the state of the specification after these calls on nothing
Build(b, evs) == Run(Empty(b), evs)
TextOf(x, o) == ObjTxt(x.h, x.be, x.hd[o])
LexOf(x, o) == Lex(x.be, TextOf(x, o))
LastText(x) == x.hist[Len(x.hist)][2]
Emitted(x) == PrintT(ToJson([be |-> x.b0, ev |-> x.hist]))
Kind(x, o) == x.h[x.hd[o]].k

InitBody(z) == \E b \in Bes :
  LET x == [Build(b, Start(b)) EXCEPT !.g = GInit(b)] IN st = x /\ bad = ~Fine(x)
Init == InitBody(1)
\* (\E over a singleton binds the value: TLC evaluates it once)
NextBody(z) ==
  /\ ~bad /\ st.k < Limit
  /\ \E ms \in {Moves(st)} : \E i \in 1..Len(ms) :
       \E y \in {[Run(st, ms[i].ev) EXCEPT !.k = IF ms[i].fin THEN Limit ELSE @ + 1, !.g = GStep(st.g, ms[i].fx)]} :
       \E x \in {IF y.k = Limit THEN Run(y, AtEnd(y)) ELSE y} :
       \E ok \in {Fine(x)} :
         /\ st' = x /\ bad' = ~ok
         /\ (x.k = Limit /\ ok) => Emitted(x)
Next == <<NextBody(1)>>_vars
Spec == Init /\ [][Next]_vars
Inv == ~bad

NoLast(x) == <<>>
AllTexts(x) == [i \in 1..Len(x.hd) |-> eTxt(i)]
(* ---- shorthands ---- *)
tId(x) == Tok("id", T(x))
tNum(n) == Tok("num", Dec(n, 1))
tStr(x) == Tok("str", T(x))
tOp(x) == Tok("op", T(x))
\* tokens of a fixed text of the dialect
Toks(b, t) == Lex(b, T(t))
ListOf(s) == SetToSeq(s)
\* all sequences over the set c of length 0..n
Words(c, n) == UNION {[1..m -> c] : m \in 0..n}
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
=============================================================================
