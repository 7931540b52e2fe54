------------------------------- MODULE Trace --------------------------------
(* Validates traces recorded from the real library.  A behaviour of this    *)
(* module walks one recorded trace; at each event it checks that the step   *)
(* (state before, operation, result, state after) is one the specification  *)
(* allows, as far as property PROP is concerned, and prints a line          *)
(*   BAD <trace> <event> <clauses>                                          *)
(* if it is not.  Every event is judged from the recorded state before it,  *)
(* so one deviation does not hide what comes after it.                      *)
EXTENDS MRef, Json, IOUtils

Prop   == IOEnv.VPROP
Traces == ndJsonDeserialize(IOEnv.VTRACE)

VARIABLES tid, l
vars == <<tid, l>>

DocAt(tr, i) == IF i = 0 THEN EmptyDoc ELSE [secs |-> tr.ps[i].secs, dc |-> tr.dcs[tr.ps[i].dc]]
PreIdx(tr, k, d) == IF k = 1 THEN 0 ELSE tr.ev[k - 1].p[d]
PreDoc(tr, k, d) == DocAt(tr, PreIdx(tr, k, d))
PostDoc(tr, k, d) == DocAt(tr, tr.ev[k].p[d])
BadAt(tr, i) == IF i = 0 THEN <<>> ELSE tr.ps[i].bad

If(c, name) == IF c THEN {} ELSE {name}

FnEq(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]

(* ---------------------------------------------------------------- loading *)
LoadRows(tr, e) == CASE e.op = "loadrows" -> e.rows
                     [] e.op = "newdecl" -> <<<<"SDeclare", "S" \o e.decl>>>>
                     [] e.src = "rows" -> e.rows
                     [] e.src = "text" -> TextRows(e.text)
                     [] OTHER -> tr.files[e.path]
LoadPath(e) == CASE e.op \in {"loadrows", "newdecl"} -> "metatabrowgenerator"
                 [] e.src = "rows" -> "metatabrowgenerator"
                 [] e.src = "text" -> "textrowgenerator"
                 [] OTHER -> e.path
FileRows(tr, f) == IF EndsIn(f, ".txt") THEN TextRows(tr.files[f]) ELSE tr.files[f]
LoadOps == {"load", "loadrows", "newdecl"}
IsLoad(e) == e.op \in LoadOps
Expect(tr, k) ==
  LET e == tr.ev[k]
      d0 == IF e.op = "newdecl" \/ (e.op = "load" /\ ~e.more) THEN EmptyDoc ELSE PreDoc(tr, k, e.d)
  IN  Load(d0, e.reg, LoadRows(tr, e), tr.files, LoadPath(e))

Mask(S) == CASE Prop = "C01" -> M01(S)
             [] Prop = "C02" -> M02(S)
             [] Prop = "C03" -> M03(S)
             [] Prop = "C04" -> M04(S)
             [] Prop \in {"C06", "C07", "C18"} -> M07(S)
             [] Prop = "C23" -> M23(S)
             [] Prop = "C25" -> M25(S)

DeclEq(a, b) == FnEq(a.T, b.T) /\ FnEq(a.S, b.S) /\ FnEq(a.sup, b.sup)

LoadClauses(tr, k) ==
  LET e == tr.ev[k]
      w == Expect(tr, k)
      g == PostDoc(tr, k, e.d)
  IN  IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x}
      ELSE IF e.x # "" THEN (IF Prop = "C22" /\ e.x = "IncludeError" /\ e.xt # <<w.xt.r, w.xt.row, w.xt.f>> THEN {"error-place"} ELSE {})
      ELSE IF Prop = "C22" THEN If(e.r = <<>>, "load-errors-listed")
      ELSE IF ~RanksOk(g.secs) THEN {"term-list"}
      ELSE If(Mask(g.secs) = Mask(w.d.secs), "document")
           \cup (IF Prop = "C07" THEN If(DeclEq(g.dc, w.d.dc), "declarations") ELSE {})

(* ---------------------------------------------------------------- editing *)
EditClauses(tr, k, withMask) ==
  LET e == tr.ev[k]
      w == Step(PreDoc(tr, k, e.d), e.reg, e)
      g == PostDoc(tr, k, e.d)
  IN  IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x}
      ELSE IF withMask THEN If(Mask(g.secs) = Mask(w.d.secs), "document-after-edit")
      ELSE If(g.secs = w.d.secs, "document-after-edit") \cup If(e.r = w.r, "result") \cup If(DeclEq(g.dc, w.d.dc), "declarations")

(* ------------------------------------------------------------------ C05 *)
FlatLow(q) == {q[i] : i \in 1..Len(q)}
Cmp05(tr, k) ==
  LET e == tr.ev[k] IN
  IF NormRows(e.rows1) # NormRows(e.rows2) THEN {"HARNESS-not-a-variant"}
  ELSE LET a == PostDoc(tr, k, 1)
           b == PostDoc(tr, k, 2)
       IN  IF e.x # "" THEN {"error:" \o e.x}
           ELSE If(M05(a.secs) = M05(b.secs), "variant-differs") \cup If(FlatLow(e.r[1]) = FlatLow(e.r[2]), "variant-dictionary-differs")
                \cup If([i \in 1..Len(RankPaths(a.secs)) |-> NameVal(ByRank(a.secs)[i])] = [i \in 1..Len(RankPaths(b.secs)) |-> NameVal(ByRank(b.secs)[i])], "variant-order-differs")
Load05(tr, k) == LET e == tr.ev[k]  w == Expect(tr, k) IN
                 IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x} ELSE IF e.x # "" THEN {} ELSE
                 If(M05(PostDoc(tr, k, e.d).secs) = M05(w.d.secs), "document")

(* ------------------------------------------------------------------ C18 *)
Cmp18(tr, k) ==
  LET a == PostDoc(tr, k, 1)
      b == PostDoc(tr, k, 2)
  IN  IF tr.ev[k].x # "" THEN {"error:" \o tr.ev[k].x}
      ELSE If(M07(a.secs) = M07(b.secs), "parts-differ") \cup If(RankPaths(a.secs) = RankPaths(b.secs), "parts-order-differs")

(* ------------------------------------------------------------------ C08 *)
DictClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      n == CASE e.what = "doc" -> DocDict(D, e.rep)
             [] e.what = "sec" -> SecDict(D.secs[e.pth[1]], e.rep)
             [] OTHER -> Conv(SGet(D.secs, e.pth), e.rep)
  IN  IF Poisoned(n) THEN {}
      ELSE IF e.x # "" THEN {"error:" \o e.x} ELSE If(Flat(n, "") = SetOf(e.r), "dictionary")

(* ------------------------------------------------------------- C09, C10 *)
Plain(D) == /\ D.secs[1].n = "Root"
            /\ ~Poisoned(DocDict(D, TRUE))
            /\ \A pth \in SetOf(AllPaths(D.secs)) : LET t == SGet(D.secs, pth) IN ~Hollow(t) /\ Tag(t.v) \in {"S", "N"}
RtClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      fmt == IF Prop = "C09" THEN "csv" ELSE "lines"
      rows == IF fmt = "csv" THEN e.r.rows ELSE TextRows(e.r.text)
      w == Load(EmptyDoc, EmptyFn, rows, tr.files, "w/rt.csv")
      g == DocAt(tr, e.r.p)
      ty == Typeful(D)
  IN  IF e.fmt # fmt \/ ~Fits(D, fmt) THEN {}
      ELSE IF e.x # "" THEN {"error:" \o e.x}
      ELSE IF e.r.x # "" THEN {"read-error:" \o e.r.x}
      ELSE IF w.x # "" THEN {"written-text-has-error:" \o w.x}
      ELSE If(Equiv(w.d, D, FALSE), "written-text-is-another-document") \cup If(Equiv(g, D, FALSE), "read-back-differs")
           \cup (IF ty THEN If(Equiv(g, D, TRUE), "read-back-types-differ")
                            \cup (IF Plain(D) THEN If(SetOf(e.r.dict[1]) = SetOf(e.r.dict[2]), "read-back-dictionary-differs") ELSE {})
                 ELSE {})

(* ------------------------------------------------------------------ C11 *)
TokClauses(tr, k) == LET e == tr.ev[k] IN IF e.x # "" THEN {"error:" \o e.x} ELSE If(e.r = Tokens(e.text), "tokens")

(* ------------------------------------------------------------------ C12 *)
FindClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      f == Firsts(D, e.names, e.v, e.secs, e.props)
  IN  IF e.x # "" THEN {"error:" \o e.x}
      ELSE CASE e.how = "find"  -> If(FindFits(D, e.names, e.v, e.secs, e.props, e.r), "found")
             [] e.how = "first" -> If(IF f = {} THEN e.r = <<<<0>>>> ELSE e.r[1] \in f, "first")
             [] e.how = "value" -> If(IF f = {} THEN e.r = <<"N">> ELSE e.r[1] \in {ValAt(D.secs, p) : p \in f}, "first-value")
             [] e.how = "get"   -> If(IF f = {} THEN e.r = <<<<0, 0>>>> ELSE e.r[1] \in f, "get")
             [] e.how = "getv"  -> If(IF f = {} THEN e.r = <<"Sdflt">> ELSE e.r[1] \in {ValAt(D.secs, p) : p \in f}, "get-value")
             [] e.how = "kids"  -> LET t == SGet(D.secs, e.pth)
                                       q == SelectSeq(IdxSeq(Len(t.k)), LAMBDA i : t.k[i].r = Lower(e.names[1]) /\ (e.v = ABSENT \/ t.k[i].v = e.v))
                                   IN  If(e.r = [i \in 1..Len(q) |-> Append(e.pth, q[i])], "children-found")

(* ------------------------------------------------------------------ C14 *)
Common == {"url", "name", "description", "schema"}
ReadOne(t, name) ==
  LET own == IsOwn(t, name)
      i == KidIdx(t, name)
      v == GetVal(t, name)
      has == own \/ i # 0
  IN  [item |-> IF has THEN v ELSE "!KeyError",
       attr |-> IF has THEN v ELSE IF Lower(name) \in Common THEN "N" ELSE "!AttributeError",
       get  |-> IF has THEN v ELSE "Sdflt",
       getv |-> IF has THEN v ELSE "Sdflt",
       ffv  |-> IF i # 0 THEN t.k[i].v ELSE "N",
       has  |-> Lower(name) = "value" \/ Lower(name) \in Common \/ i # 0]
PropClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      t == SGet(D.secs, e.pth)
      s == D.secs[e.pth[1]]
      bad(i) == LET w == ReadOne(t, e.names[i]) IN
                  If(e.r.n[i].item = w.item, "item") \cup If(e.names[i] # Lower(e.names[i]) \/ e.r.n[i].attr = w.attr, "attribute")
                  \cup If(e.r.n[i].get = w.get, "get") \cup If(e.r.n[i].getv = w.getv, "get-value")
                  \cup If(e.r.n[i].ffv = w.ffv, "find-value") \cup If(e.r.n[i].has = w.has, "contains")
  IN  IF e.x # "" THEN {"error:" \o e.x}
      ELSE UNION {bad(i) : i \in 1..Len(e.names)}
           \cup If(e.r.value = t.v, "value")
           \cup If(SetOf(e.r.props) = Flat(MapN(Props(t)), ""), "props")
           \cup If(SetOf(e.r.arg_props) = Flat(MapN(ArgProps(s, t)), ""), "row-props")
           \cup If(SetOf(e.r.all_props) = Flat(MapN(AllProps(s, t)), ""), "all-props")

(* ------------------------------------------------------------------ C15 *)
SecReadClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      i == SecIdx(D.secs, e.name)
      w == IF i = 0 THEN <<0>> ELSE <<i>>
  IN  IF e.x # "" THEN {"error:" \o e.x}
      ELSE If(e.r.item = (IF i = 0 THEN <<>> ELSE <<w>>), "section-item") \cup If(e.r.get = <<w>>, "get-section")
           \cup If(e.r.both = (IF i = 0 THEN <<>> ELSE <<w, w>>), "section-list")
           \cup If(e.r.has = (i # 0), "section-contains")
           \cup If(e.r.iter = [n \in 1..Len(D.secs) |-> <<n>>], "section-iteration")
           \cup If(e.r.terms = [n \in 1..Len(D.secs) |-> [j \in 1..Len(D.secs[n].t) |-> <<n, j>>]], "term-iteration")
           \cup If(i = 0 \/ e.r.names = PropNames(D.secs[i]), "section-columns")

(* ------------------------------------------------------------- C16, C17 *)
ObservedId(D) == LET p == IdPath(D) IN IF p = <<>> THEN "" ELSE LET v == SGet(D.secs, p).v IN IF Falsy(v) THEN "" ELSE Txt(v)
IdentClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      g == PostDoc(tr, k, e.d)
      uid == ObservedId(g)
      w == IdentStep(D, e, uid)
      fresh == IdPath(D) = <<>> \/ Falsy(SGet(D.secs, IdPath(D)).v)
  IN  IF ~IdentClear(D) \/ (e.op = "updname" /\ ~VersionFits(D, e.mod)) THEN {}
      ELSE IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x}
      ELSE If(g.secs = w.d.secs, "document-after") \cup (IF e.x # "" THEN {} ELSE If(e.r = w.m, "result"))
           \cup (IF e.op # "updver" /\ fresh THEN If(Len(uid) = 36 /\ \A d \in {1, 2} : d = e.d \/ tr.ev[k].p[d] = 0 \/ ObservedId(PostDoc(tr, k, d)) # uid, "identifier") ELSE {})
AsVerClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      w == GenName(D, e.mod)
  IN  If(tr.ev[k].p = <<PreIdx(tr, k, 1), PreIdx(tr, k, 2)>>, "document-changed")
      \cup (IF ~IdentClear(D) \/ ~VersionFits(D, e.mod) THEN {}
            ELSE IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x} ELSE IF e.x # "" THEN {} ELSE If(e.r = <<"S" \o w.n>>, "name"))

(* ------------------------------------------------------------- C19, C20 *)
ReadOps == {"dict", "rt", "find", "getprops", "getsec", "asver", "pack", "misc"}
PureClauses(tr, k) ==
  LET e == tr.ev[k] IN
  If(e.p = <<PreIdx(tr, k, 1), PreIdx(tr, k, 2)>>, "document-changed") \cup If(e.same, "answer-differs")
OtherClauses(tr, k) ==
  LET e == tr.ev[k]
      o == 3 - e.d
  IN  If(e.p[o] = PreIdx(tr, k, o), "other-document-changed")
      \cup (IF e.p[o] = 0 THEN {} ELSE If(e.seen[1] = e.seen[2], "other-document-reads-differently"))
      \cup (IF e.op \in LoadOps THEN LET w == Expect(tr, k) IN
              IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x} ELSE IF e.x # "" THEN {}
              ELSE If(PostDoc(tr, k, e.d).secs = w.d.secs, "document-depends-on-other") \cup If(DeclEq(PostDoc(tr, k, e.d).dc, w.d.dc), "declarations-depend-on-other")
            ELSE IF e.op \in EditOps THEN EditClauses(tr, k, FALSE)
            ELSE {})

(* ------------------------------------------------------------------ C21 *)
WriteClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      g == PostDoc(tr, k, e.d)
      wrong == e.how # "write" /\ e.ext # (IF e.how = "csv" THEN "csv" ELSE "txt")
      other == e.how = "write" /\ e.ext \notin {"csv", "txt"}
      fmt == IF e.ext = "csv" THEN "csv" ELSE "lines"
      rows == IF fmt = "csv" THEN e.r.rows ELSE TextRows(e.r.text)
      w == Load(EmptyDoc, EmptyFn, rows, tr.files, "w/out.csv")
      uid == ObservedId(g)
      c == Cleanse(D, uid)
  IN  IF wrong \/ other
      THEN If(e.x = (IF wrong THEN "MetatabError" ELSE "FormatError"), "refused") \cup If(e.r.before = e.r.after /\ e.r.others, "file-touched")
           \cup If(e.p = <<PreIdx(tr, k, 1), PreIdx(tr, k, 2)>>, "document-changed")
      ELSE IF e.x # "" THEN {"error:" \o e.x}
      ELSE If(~IdentClear(D) \/ g.secs = c.secs, "document-after-write")
           \cup If(e.r.others, "other-files-touched")
           \cup If(uid # "" /\ Len(uid) > 0, "identifier")
           \cup (IF ~Fits(g, fmt) THEN {} ELSE
                 IF e.r.x # "" THEN {"read-error:" \o e.r.x} ELSE
                 If(w.x = "" /\ Equiv(w.d, g, FALSE), "file-is-another-document") \cup If(Equiv(DocAt(tr, e.r.p), g, FALSE), "read-back-differs"))

(* ------------------------------------------------------------------ C24 *)
PackClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      w == Pack(D)
  IN  IF ~PackOk(D) THEN {}
      ELSE IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x}
      ELSE IF e.x # "" THEN {} ELSE If(SetOf(e.r) = Flat(w.n, ""), "datapackage")

(* ------------------------------------------------------------------ C26 *)
SchemaClauses(tr, k) ==
  LET e == tr.ev[k]
      D == PreDoc(tr, k, e.d)
      g == PostDoc(tr, k, e.d)
      i == SecIdx(D.secs, "schema")
      strs == i = 0 \/ \A p \in SetOf(SchemaCols(D.secs[i])) : \A c \in SetOf(D.secs[i].t[p[1]].k[p[2]].k) : Tag(c.v) \in {"S", "N"}
  IN  IF ~strs THEN {}
      ELSE IF i = 0 THEN If(e.x = "KeyError", "error") \cup If(e.p = <<PreIdx(tr, k, 1), PreIdx(tr, k, 2)>>, "document-changed")
      ELSE IF e.x # "" THEN {"error:" \o e.x}
      ELSE If(CleanSchemaArgsOk(D.secs[i], g.secs[i].a), "columns")
           \cup If(g.secs = [D.secs EXCEPT ![i].a = g.secs[i].a, ![i].t = CleanSchemaTerms(D.secs[i])], "document-after")

(* ------------------------------------------------------------------ C27 *)
CliRows(tr, e) == FileRows(tr, e.path)
CliDoc(tr, e) == Load(EmptyDoc, EmptyFn, CliRows(tr, e), tr.files, e.path)
CliDecl(tr, e) == Load(EmptyDoc, EmptyFn, <<<<"SDeclare", "S" \o BaseName(e.path)>>>>, tr.files, e.path)
CliReadable(tr, e) == LET w == CliDoc(tr, e) IN w.x = "" /\ ~Poisoned(DocDict(w.d, TRUE))
(* the line that stands for a term, and those of a document without declarations *)
TermLine(s, t) == t.f \o " " \o t.row \o ":" \o t.col \o " " \o s.n \o ":" \o t.p \o "." \o t.r \o "=" \o PyStr(t.v)
(* a property may lie under another section header than the term it belongs to; the parser names either *)
TermLines(S) == {IF Len(p) = 2 THEN {TermLine(S[p[1]], SGet(S, p))} ELSE {TermLine(S[i], SGet(S, p)) : i \in 1..Len(S)} : p \in SetOf(AllPaths(S))}
CliClauses(tr, k) ==
  LET e == tr.ev[k] IN
  CASE e.mode # "create" /\ e.path \notin DOMAIN tr.files -> If(e.x = "" /\ e.r.code # 0, "no-such-file") \cup If(e.x # "" \/ (e.r.out = "" /\ e.r.files = <<>>), "no-such-file-output")
    [] e.mode # "create" /\ ~CliReadable(tr, e) -> {}
    [] e.mode \in {"decljson", "declyaml"} /\ CliDecl(tr, e).x # "" -> {}
    [] e.x # "" -> {"error:" \o e.x}
    [] e.mode = "find" -> LET D == CliDoc(tr, e).d
                              f == Firsts(D, <<e.name>>, ABSENT, <<>>, <<>>)
                          IN  If(e.r.files = <<>>, "files-touched")
                              \cup (IF f = {} THEN If(e.r.code # 0 /\ e.r.out = "", "no-match")
                                    ELSE If(e.r.code = 0 /\ \E p \in f : e.r.out = PyStr(ValAt(D.secs, p)) \o "\n", "found-value"))
    [] e.mode = "create" -> If(e.r.code = 0, "exit") \cup
                            (IF e.r.existed THEN If(e.r.files = <<>>, "existing-file-touched")
                             ELSE If(e.r.files = <<e.path>>, "files")
                                  \cup (IF e.r.x # "" THEN {"read-error:" \o e.r.x}
                                        ELSE LET g == DocAt(tr, e.r.p)
                                                 t0 == Load(EmptyDoc, EmptyFn, e.r.template, tr.files, "w/template.csv")
                                             IN  If(t0.x = "" /\ ObservedId(g) # "" /\ Equiv(g, Cleanse(t0.d, ObservedId(g)), FALSE), "created-document")))
    [] e.mode = "terms" -> LET S == CliDoc(tr, e).d.secs
                               w == TermLines(S)
                           IN  If(e.r.code = 0, "exit") \cup If(e.r.files = <<>>, "files-touched")
                               \cup (IF Declares(CliDoc(tr, e).d) # <<>> \/ (\E x \in UNION w : HasCh(x, "\n")) THEN {}
                                     ELSE LET q == SelectSeq(e.r.lines, LAMBDA x : x \in UNION w) IN
                                       If(\A x \in w : x \cap SetOf(q) # {}, "term-missing")
                                       \cup If(Len(e.r.lines) - Len(q) <= 2 + Len(CliRows(tr, e)), "lines"))
    [] e.mode \in {"decljson", "declyaml"} ->
         LET w == CliDecl(tr, e).d.dc IN
         If(e.r.code = 0, "exit") \cup If(e.r.files = <<>>, "files-touched")
         \cup (IF e.r.x # "" THEN {e.r.x} ELSE If(FnEq(e.r.decl.T, w.T) /\ FnEq(e.r.decl.S, w.S), "declarations"))
    [] OTHER -> If(e.r.code = 0, "exit")
                \cup If(e.r.got = e.r.want, "output-is-not-the-library-conversion")
                \cup (IF e.mode \in {"json", "yaml", "pretty"}
                      THEN IF e.r.x # "" THEN {e.r.x} ELSE If(SetOf(e.r.flat) = Flat(DocDict(CliDoc(tr, e).d, TRUE), ""), "output-is-not-the-document")
                      ELSE {})
                \cup If(e.r.files = (IF e.inplace THEN <<e.r.target>> ELSE <<>>), "files-touched")

(* ------------------------------------------------------------------ C28 *)
NonBlank(q) == SelectSeq(q, LAMBDA r : \E i \in 1..Len(r) : r[i] # "S")
RefClauses(tr, k) ==
  LET e == tr.ev[k]
      f == RefFile(e.ref, DOMAIN tr.files)
      w == Load(EmptyDoc, e.reg, FileRows(tr, f), tr.files, f)
      g == PostDoc(tr, k, e.d)
  IN  IF ~RefClear(e.ref, DOMAIN tr.files) THEN {"HARNESS-unclear-reference"}
      ELSE IF f = "" THEN If(e.x \notin {"", "Timeout"}, "no-such-file")
      ELSE IF e.op = "refinfo" THEN
        IF e.x # "" THEN {"error:" \o e.x}
        ELSE If(e.r.exists, "exists") \cup If(NonBlank(e.r.rows) = NonBlank(FileRows(tr, f)), "rows")
             \cup (IF InZip(f) \/ ~IsMeta(e.ref) THEN {} ELSE If(e.r.join = RelPath("$/" \o f, e.name), "joined"))
      ELSE IF e.x # w.x THEN {"error-expected:" \o w.x \o ":got:" \o e.x}
      ELSE IF e.x # "" THEN {}
      ELSE If(g.secs = w.d.secs, "document") \cup If(DeclEq(g.dc, w.d.dc), "declarations")
           \cup (IF InZip(f) THEN {} ELSE If(e.r.dir = DirName("$/" \o f), "directory") \cup If(e.r.path = "$/" \o f, "path") \cup If(e.r.time, "time"))

(* -------------------------------------------------------------- dispatch *)
Integrity(tr, k) ==
  LET e == tr.ev[k] IN
  If(e.p[e.d] = 0 \/ (BadAt(tr, e.p[e.d]) = <<>> /\ DocOk(PostDoc(tr, k, e.d))), "inconsistent")

SecOps == {"newsec", "gonsec", "delsec", "sortsecs", "addarg", "rmarg", "sortterms"}
PropOps == {"setprop", "setattr", "setvalue", "gonchild", "newchild"}

Clauses(tr, k) ==
  LET e == tr.ev[k] IN
  CASE Prop \in {"C01", "C02", "C03", "C04", "C06", "C07", "C22"} -> IF IsLoad(e) THEN LoadClauses(tr, k) ELSE {}
    [] Prop = "C05" -> IF e.op = "cmp05" THEN Cmp05(tr, k) ELSE IF IsLoad(e) THEN Load05(tr, k) ELSE {}
    [] Prop = "C08" -> IF e.op = "dict" THEN DictClauses(tr, k) ELSE {}
    [] Prop \in {"C09", "C10"} -> IF e.op = "rt" THEN RtClauses(tr, k) ELSE {}
    [] Prop = "C11" -> IF e.op = "tokens" THEN TokClauses(tr, k) ELSE {}
    [] Prop = "C12" -> IF e.op = "find" THEN FindClauses(tr, k) ELSE {}
    [] Prop = "C13" -> IF e.op \in EditOps THEN EditClauses(tr, k, FALSE) \cup Integrity(tr, k)
                       ELSE IF e.x = "" THEN Integrity(tr, k) ELSE {}
    [] Prop = "C14" -> IF e.op = "getprops" THEN PropClauses(tr, k) ELSE IF e.op \in PropOps THEN EditClauses(tr, k, FALSE) ELSE {}
    [] Prop = "C15" -> IF e.op = "getsec" THEN SecReadClauses(tr, k) ELSE IF e.op \in SecOps THEN EditClauses(tr, k, FALSE) ELSE {}
    [] Prop = "C16" -> IF e.op \in {"ensureid", "updname", "cleanse"} THEN IdentClauses(tr, k) ELSE {}
    [] Prop = "C17" -> IF e.op = "asver" THEN AsVerClauses(tr, k) ELSE IF e.op = "updver" THEN IdentClauses(tr, k) ELSE {}
    [] Prop = "C18" -> IF e.op = "cmp18" THEN Cmp18(tr, k) ELSE IF IsLoad(e) THEN LoadClauses(tr, k) ELSE {}
    [] Prop = "C19" -> IF e.op \in ReadOps THEN PureClauses(tr, k) ELSE {}
    [] Prop = "C20" -> OtherClauses(tr, k)
    [] Prop = "C21" -> IF e.op = "write" THEN WriteClauses(tr, k) ELSE IF e.op = "cli" /\ e.mode = "create" THEN CliClauses(tr, k) ELSE {}
    [] Prop = "C23" -> IF IsLoad(e) THEN LoadClauses(tr, k) ELSE IF e.op \in {"newterm", "gonterm", "setterms", "setitem"} THEN EditClauses(tr, k, TRUE) ELSE {}
    [] Prop = "C24" -> IF e.op = "pack" THEN PackClauses(tr, k) ELSE {}
    [] Prop = "C25" -> IF IsLoad(e) THEN LoadClauses(tr, k) ELSE IF e.op \in EditOps THEN EditClauses(tr, k, TRUE) ELSE {}
    [] Prop = "C26" -> IF e.op = "cleanschema" THEN SchemaClauses(tr, k) ELSE {}
    [] Prop = "C27" -> IF e.op = "cli" THEN CliClauses(tr, k) ELSE {}
    [] Prop = "C28" -> IF e.op \in {"refload", "refinfo"} THEN RefClauses(tr, k) ELSE {}
    [] OTHER -> {"HARNESS-unknown-property"}

Debug(tr, k) ==           \* with VDEBUG set: what was expected after the event
  LET e == tr.ev[k] IN
  IF "VDEBUG" \notin DOMAIN IOEnv THEN TRUE
  ELSE PrintT("EXP " \o ToString(k) \o " " \o ToJson(IF IsLoad(e) THEN Expect(tr, k).d.secs
                 ELSE IF e.op \in EditOps THEN Step(PreDoc(tr, k, e.d), e.reg, e).d.secs ELSE <<>>))

Init == tid \in 1..Len(Traces) /\ l = 0
Next == /\ l < Len(Traces[tid].ev)
        /\ l' = l + 1
        /\ tid' = tid
        /\ Debug(Traces[tid], l + 1)
        /\ LET c == Clauses(Traces[tid], l + 1)
           IN  c = {} \/ PrintT("BAD " \o Traces[tid].id \o " " \o ToString(l + 1) \o " " \o ToString(c))
Spec == Init /\ [][Next]_vars
=============================================================================
