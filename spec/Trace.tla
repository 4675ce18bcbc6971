-------------------------------- MODULE Trace --------------------------------
(* Validates recorded executions of the real library against SqlPuzzle.       *)
(* Every line of the file TRACE is one program: its backend and its events,   *)
(* each with the outcome r observed on the real code.  The specification's    *)
(* own actions (Step) are applied to the recorded calls, and each observation *)
(* is compared with what the specification allows.  For each difference one   *)
(* line is printed: <<"MISMATCH", program, event>>, then                      *)
(* <<"VIOL" or "OTHER", program, event, reason>> for the property PROP.       *)
EXTENDS Judge, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Show == IOEnv.SHOW
VARIABLES pid, i, h, be, hd, bad
vars == <<pid, i, h, be, hd, bad>>
Init == /\ pid \in 1..Len(Progs) /\ i = 0 /\ h = <<>> /\ be = Progs[pid].be /\ hd = <<>> /\ bad = FALSE

\* an empty collection has no condition: it may be refused at once instead of on rendering
RECURSIVE Empty(_)
Empty(v) == CASE v.k \in Lists -> v.e = <<>> \/ \E j \in 1..Len(v.e) : Empty(v.e[j])
              [] v.k \in {"dict", "odict"} -> \E j \in 1..Len(v.d) : Empty(v.d[j][2])
              [] v.k = "rel" -> \E j \in 1..Len(v.a) : Empty(v.a[j])
              [] v.k \in {"V", "R"} -> Empty(v.v)
              [] OTHER -> FALSE
Refused(e) == /\ e.e \in {"call", "new"} /\ e.r.t = "exc" /\ IA \in Range(e.r.x)
              /\ \/ \E j \in 1..Len(e.a) : Empty(e.a[j])
                 \/ \E j \in 1..Len(e.kw) : Empty(e.kw[j][2])
                 \/ e.e = "call" /\ IA \in ErrNames(ObjTxt(h, be, hd[e.o]))
Changing == {"new", "call", "op", "copy", "conf"}
\* differences of a call: "" or what is wrong
Outcome(s, r) ==
  IF s.err = "" THEN (IF r.t = "exc" THEN "raised where it must be accepted"
                      ELSE IF ~r.self THEN "does not return the query"
                      ELSE IF ~r.am THEN "argument modified" ELSE "")
  ELSE IF r.t # "exc" THEN "accepted where it must be rejected"
  ELSE IF s.err \notin Range(r.x) THEN "wrong exception" ELSE IF ~r.am THEN "argument modified" ELSE ""
TextDiff(t, r) ==
  IF Raises(t) THEN (IF r.t # "exc" THEN "rendered where it must raise"
                     ELSE IF ErrNames(t) \cap Range(r.x) = {} THEN "wrong exception" ELSE "")
  ELSE IF r.t = "exc" THEN "rendering raised" ELSE IF r.s = t THEN "" ELSE "text"
Expected(e) == CASE e.e = "txt" -> ObjTxt(h, be, hd[e.o])
                 [] e.e = "val" -> Txt(h, be, Deref(e.a[1], hd))
                 [] OTHER -> <<>>
\* comparing and has are specified for queries which can be rendered
Unrendered(v) == v.k = "obj" /\ Raises(ObjTxt(h, be, v.id))
EqExp(e) == EqPy(h, be, Deref(e.a[1], hd), Deref(e.a[2], hd))
Diff(e) ==
  CASE e.e \in {"txt", "val"} -> TextDiff(Expected(e), e.r)
    [] e.e = "rel" -> Outcome(IF ArgOk(Deref(e.a[1], hd)) THEN Ok(h, be) ELSE Err(h, be, IA), e.r)
    [] e.e = "eq" -> IF Unrendered(Deref(e.a[1], hd)) \/ Unrendered(Deref(e.a[2], hd)) THEN ""
                     ELSE IF e.r.t = "exc" THEN "comparing raised"
                     ELSE LET b == EqExp(e) IN
                          IF e.r.b = b /\ e.r.rb = b /\ e.r.nb = ~b /\ e.r.rnb = ~b THEN "" ELSE "equality"
    [] e.e = "has" -> IF e.r.t = "exc" THEN IF Raises(ObjTxt(h, be, hd[e.o])) THEN "" ELSE "has raised"
                      ELSE IF e.r.b = Has(h, be, h[hd[e.o]], e.n, DerefAll(e.w, hd)) THEN "" ELSE "has"
    [] OTHER -> ""
Kind(e) == IF e.e = "txt" THEN h[hd[e.o]].k ELSE "val"
\* is the difference d a violation of the property?
Concerns(e, d) ==
  CASE Prop \in Twinned -> (d = "argument modified" /\ Prop = "C23") \/ ("tw" \in DOMAIN e /\ e.tw # e.r)
    [] d = "does not return the query" -> Prop = "C15"
    [] d = "argument modified" -> FALSE
    [] d = "text" -> ~Agree(Prop, Kind(e), Canon(Lex(be, Expected(e))), Canon(Lex(be, e.r.s)))
    [] d = "equality" \/ d = "comparing raised" -> Prop = "C13"
    [] d = "has" \/ d = "has raised" -> Prop = "C24"
    [] OTHER -> TRUE
Report(e, d) == /\ PrintT(<<"MISMATCH", pid, i + 1, d>>)
                /\ Show # "0" => PrintT(<<"EXPECTED", pid, i + 1, Expected(e)>>)
                /\ PrintT(<<IF Concerns(e, d) THEN "VIOL" ELSE "OTHER", pid, i + 1, d>>)
\* after these differences the specification no longer knows the state of the real objects
Lost(d) == d \in {"raised where it must be accepted", "accepted where it must be rejected"}
NextBody(z) ==
  /\ ~bad /\ i < Len(Progs[pid].ev)
  /\ i' = i + 1 /\ pid' = pid
  /\ LET e == Progs[pid].ev[i + 1] IN
     IF e.e \in Changing
     THEN LET s == Step(h, be, hd, e) d == Outcome(s, e.r) IN
          /\ h' = s.h /\ be' = s.be /\ hd' = IF s.new = 0 THEN hd ELSE Append(hd, s.new)
          /\ bad' = Lost(d)
          /\ (d # "" /\ ~(Lost(d) /\ Refused(e))) => Report(e, d)
     ELSE LET d == Diff(e) IN
          /\ UNCHANGED <<h, be, hd>> /\ bad' = FALSE
          /\ d # "" => Report(e, d)
Next == <<NextBody(1)>>_vars
Spec == Init /\ [][Next]_vars
=============================================================================
