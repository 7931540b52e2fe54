-------------------------------- MODULE MStep -------------------------------
(* One operation on one document: [x error name, d document after, r terms  *)
(* returned (as paths in the document after)].                              *)
EXTENDS MPack

EditOps == {"newsec", "gonsec", "delsec", "sortsecs", "addarg", "rmarg", "newterm", "gonterm", "newchild", "gonchild",
            "setprop", "setattr", "setvalue", "rmterm", "rmchild", "delterms", "cleansec", "sortterms", "moveterm", "setterms", "setitem", "addnew"}
IdentOps == {"ensureid", "updver", "updname", "cleanse"}

Ok(d)      == [x |-> "", d |-> d, r |-> <<>>]
OkR(d, p)  == [x |-> "", d |-> d, r |-> <<p>>]

Step(D, reg, e) ==
  CASE e.op = "newsec"   -> LET d == NewSection(D, e.name, e.cols) IN OkR(d, <<Len(d.secs)>>)
    [] e.op = "gonsec"   -> LET d == GetOrNewSection(D, e.name, e.cols) IN OkR(d, <<SecIdx(d.secs, e.name)>>)
    [] e.op = "delsec"   -> Ok(DelSection(D, e.name))
    [] e.op = "sortsecs" -> Ok(SortSections(D, e.order))
    [] e.op = "addarg"   -> Ok(AddArg(D, e.s, e.name, e.front))
    [] e.op = "rmarg"    -> Ok(RmArg(D, e.s, e.name))
    [] e.op = "newterm"  -> LET d == NewTerm(D, reg, e.s, e.name, e.v, e.props) IN OkR(d, <<e.s, Len(d.secs[e.s].t)>>)
    [] e.op = "gonterm"  -> LET d == GetOrNewTerm(D, reg, e.s, e.name, e.v, e.props)
                                f == First(D, e.name, e.v, <<D.secs[e.s].n>>)
                            IN  OkR(d, IF f # <<>> THEN f ELSE <<e.s, Len(d.secs[e.s].t)>>)
    [] e.op = "setitem"  -> Ok(GetOrNewTerm(D, reg, e.s, e.name, e.v, <<>>))
    [] e.op = "addnew"   -> IF SplitName(e.name).p # ROOT THEN [x |-> "GenerateError", d |-> D, r |-> <<>>]
                            ELSE LET d == NewTerm(D, EmptyFn, e.s, e.name, e.v, <<>>) IN OkR(d, <<e.s, Len(d.secs[e.s].t)>>)
    [] e.op = "newchild" -> LET d == NewChild(D, e.pth, e.name, e.v, e.props) IN OkR(d, Append(e.pth, Len(SGet(d.secs, e.pth).k)))
    [] e.op = "gonchild" -> LET d == GetOrNewChild(D, e.pth, e.name, e.v, e.props)
                            IN  OkR(d, Append(e.pth, KidIdx(SGet(d.secs, e.pth), SplitName(e.name).r)))
    [] e.op \in {"setprop", "setattr"} -> Ok(SetProp(D, e.pth, e.name, e.v))
    [] e.op = "setvalue" -> Ok(SetValue(D, e.pth, e.v))
    [] e.op = "rmterm"   -> Ok(RmTerm(D, e.pth))
    [] e.op = "rmchild"  -> Ok(RmChild(D, e.pth))
    [] e.op = "delterms" -> Ok(DelTerms(D, e.s, e.name))
    [] e.op = "cleansec" -> Ok(CleanSection(D, e.s))
    [] e.op = "sortterms" -> Ok(SortTerms(D, e.s, e.given, e.order))
    [] e.op = "moveterm" -> Ok(MoveTerm(D, e.pth, e.s))
    [] e.op = "setterms" -> Ok(SetTerms(D, reg, e.s, e.items))

IdentStep(D, e, uid) ==
  CASE e.op = "ensureid" -> [x |-> "", d |-> EnsureId(D, uid), m |-> <<>>]
    [] e.op = "updver"   -> LET u == UpdateVersion(D) IN [x |-> "", d |-> u.d, m |-> <<u.v>>]
    [] e.op = "updname"  -> UpdateName(D, uid, e.force, e.create, e.report, e.mod)
    [] e.op = "cleanse"  -> [x |-> "", d |-> Cleanse(D, uid), m |-> <<>>]

(* ---- what holds of every document ---- *)
RECURSIVE TreeOk(_)
TreeOk(t) == \A i \in 1..Len(t.k) : t.k[i].p = t.r /\ t.k[i].o = 0 /\ TreeOk(t.k[i])
DocOk(D) ==
  LET q == RootPaths(D.secs) IN
  /\ {SGet(D.secs, q[n]).o : n \in 1..Len(q)} = 1..Len(q)                 \* listed exactly once
  /\ \A n \in 1..Len(q) : SGet(D.secs, q[n]).p = ROOT /\ TreeOk(SGet(D.secs, q[n]))
  /\ \A i, j \in 1..Len(D.secs) : Lower(D.secs[i].n) = Lower(D.secs[j].n) => i = j
=============================================================================
