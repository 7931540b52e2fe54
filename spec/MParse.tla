------------------------------- MODULE MParse -------------------------------
(* Reading rows into a document: one step per row, as the parser does it.   *)
(* Parser state ps:                                                         *)
(*   S    sections, those of declaration files marked det                   *)
(*   cur  index of the current section      gs  section to return to after  *)
(*        an include                                                        *)
(*   lp   record name of the term that elided rows attach to ("root": none) *)
(*   ltm  record name -> path of the last term of that name                 *)
(*   pm   column names in force             dv  value name in force         *)
(*   T,DS declarations of this load         D   those the document had      *)
(*   n    top level terms so far            reg class registry              *)
(*   x    error, "" if none                 xt  where it happened           *)
EXTENDS MDoc

NoErr == [x |-> "", r |-> "", row |-> "", f |-> ""]
Fail(ps, x, r, row, f) == [ps EXCEPT !.x = x, !.xt = [x |-> x, r |-> r, row |-> row, f |-> f]]

Munge(args) == [i \in 1..Len(args) |-> IF args[i] = "" THEN ToString(i - 1) ELSE Lower(args[i])]
RowCells(row) == [i \in 1..(IF Len(row) > 2 THEN Len(row) - 2 ELSE 0) |-> CellArg(row[i + 2])]
Strs(cells) == [i \in 1..Len(cells) |-> Txt(cells[i])]

Skipped(row) == row = <<>> \/ row[1] = "N" \/ Blank(Txt(row[1])) \/ Ch(Strip(Txt(row[1])), 1) = "#"

SupOf(T) == [k \in {k \in DOMAIN T : T[k].inh # ""} |-> Lower(T[k].inh)]
PsSup(ps) == SupOf(ps.T)

EnterSec(ps, i) == [ps EXCEPT !.cur = i, !.lp = ROOT, !.pm = Munge(PropNames(ps.S[i])), !.dv = ps.S[i].dv]

(* an integer record name stands for the column of that number *)
Remap(pm, r) == IF IsDigits(r) /\ NatOf(r) < Len(pm) THEN pm[NatOf(r) + 1] ELSE r

(* ---- declarations ---- *)
Arg(ps, t, key) ==      \* the cell under a column, "" if there is none
  LET names == PropNames(ps.S[ps.cur])
      i == LastIdx(SubSeq(names, 1, IF Len(t.a) < Len(names) THEN Len(t.a) ELSE Len(names)), LAMBDA e : Lower(e) = key)
  IN  IF i = 0 THEN "" ELSE Txt(t.a[i])

SecOfDecl(ps, td, r, row, f) ==     \* the term joins its section's list
  LET s == Lower(td.sec) IN
  IF s \notin DOMAIN ps.DS THEN Fail(ps, "DeclarationError", r, row, f)
  ELSE IF \E i \in 1..Len(ps.DS[s].t) : ps.DS[s].t[i] = td.name THEN ps
  ELSE [ps EXCEPT !.DS[s].t = Append(@, td.name)]

DeclKeep(td) == [tvn |-> td.tvn, cpt |-> td.cpt, sec |-> td.sec, inh |-> td.inh, syn |-> td.syn]

DeclareTerm(ps, t) ==
  LET td == [name |-> Txt(t.v), tvn |-> Arg(ps, t, "termvaluename"), cpt |-> Arg(ps, t, "childpropertytype"),
             sec |-> Arg(ps, t, "section"), inh |-> Arg(ps, t, "inheritsfrom"), syn |-> Arg(ps, t, "synonym")]
      p1 == [ps EXCEPT !.T = Put(@, Normal(td.name), DeclKeep(td))]
      p2 == IF td.sec = "" THEN p1 ELSE SecOfDecl(p1, td, t.r, t.row, t.f)
  IN  IF td.inh = "" \/ p2.x # "" THEN p2
      ELSE IF td.sec = "" THEN Fail(p2, "DeclarationError", t.r, t.row, t.f)
      ELSE LET me  == SplitName(td.name).r
               sup == SplitName(td.inh).r
               had == p2.DS[Lower(td.sec)].t
           IN  FoldLeft(LAMBDA q, nm :
                 IF q.x # "" \/ ~StartsWith(Lower(nm), sup \o ".") THEN q
                 ELSE LET base == q.T[Lower(nm)]
                          \* the record part as written in both declarations
                          sub == Strip(Split(td.name, ".")[Len(Split(td.name, "."))]) \o "." \o Strip(Split(nm, ".")[2])
                          q1 == [q EXCEPT !.T = Put(@, Lower(sub), [base EXCEPT !.inh = ""])]
                      IN  SecOfDecl(q1, [name |-> sub, sec |-> base.sec], t.r, t.row, t.f),
                 p2, had)

DeclareSection(ps, t) ==
  [ps EXCEPT !.DS = Put(@, Lower(Txt(t.v)), [a |-> SelectSeq(Strs(t.a), LAMBDA e : ~Blank(e)), t |-> <<>>])]

Manage(ps, t, ft) ==
  IF ft # "declare" \/ ps.x # "" THEN ps
  ELSE IF Join(t) = "root.declaresection" THEN DeclareSection(ps, t)
  ELSE IF Join(t) = "root.declareterm" THEN DeclareTerm(ps, t)
  ELSE ps

(* ---- a term arriving from a row or from a cell ---- *)
Attach(ps, t, path) ==              \* add t as a child of the term at path, giving its own path
  LET par == SGet(ps.S, path)
  IN  [ps |-> [ps EXCEPT !.S = SPut(@, path, [par EXCEPT !.k = Append(@, t)])],
       path |-> Append(path, Len(par.k) + 1)]

AttachRoot(ps, t) ==                \* add t to the current section
  LET s  == ps.S[ps.cur]
      d  == DeclOf(ps.D.T, Join(t))
      t1 == [t EXCEPT !.cp = IF @ = "any" THEN Or(d.cpt, "any") ELSE @,
                      !.tv = IF @ = s.dv THEN Or(d.tvn, s.dv) ELSE @,
                      !.o  = IF s.det THEN 0 ELSE ps.n + 1]
  IN  [ps |-> [ps EXCEPT !.S[ps.cur].t = Append(@, t1), !.n = IF s.det THEN @ ELSE @ + 1],
       path |-> <<ps.cur, Len(s.t) + 1>>]

Typed(ps, t) == LET d == DeclOf(ps.T, Join(t)) IN [t EXCEPT !.cp = Or(d.cpt, "any"), !.tv = Or(d.tvn, ps.dv)]

Arrive(ps, t0) ==                   \* the term of a row: the new state and the path of the term
  LET elided == t0.p = ELIDED
      t  == Typed(ps, IF elided THEN [t0 EXCEPT !.p = ps.lp] ELSE t0)
  IN  IF elided
      THEN IF ps.lp = ROOT THEN AttachRoot(ps, t) ELSE Attach(ps, t, ps.ltm[ps.lp])
      ELSE IF t.p # ROOT /\ t.p \notin DOMAIN ps.ltm
      THEN [ps |-> Fail(ps, "ParserError", t.r, t.row, t.f), path |-> <<>>]
      ELSE LET a == IF t.p = ROOT THEN AttachRoot(ps, t) ELSE Attach(ps, t, ps.ltm[t.p])
           IN  [a EXCEPT !.ps = [@ EXCEPT !.lp = t.r, !.ltm = Put(@, t.r, a.path)]]

ArriveArg(ps, t, path) == Attach(ps, Typed(ps, t), path).ps     \* a cell of the row of the term at path

RECURSIVE ReadFile(_, _, _, _, _, _)

MkTerm(p, r, v, a, row, col, f, c) ==
  [p |-> p, r |-> r, v |-> v, tv |-> ATVAL, cp |-> "any", a |-> a, k |-> <<>>, row |-> row, col |-> col, f |-> f, o |-> 0, c |-> c]

(* paths of files: names joined by "/", no leading "/" *)
RECURSIVE NormParts(_, _)
NormParts(acc, q) ==
  IF q = <<>> THEN acc
  ELSE IF Head(q) \in {"", "."} THEN NormParts(acc, Tail(q))
  ELSE IF Head(q) = ".." /\ acc # <<>> /\ acc[Len(acc)] # ".." THEN NormParts(SubSeq(acc, 1, Len(acc) - 1), Tail(q))
  ELSE NormParts(Append(acc, Head(q)), Tail(q))
DirParts(path) == LET q == Split(path, "/") IN SubSeq(q, 1, Len(q) - 1)
RECURSIVE StripSlash(_)
StripSlash(s) == IF s = "" THEN s ELSE IF Ch(s, 1) = "/" THEN StripSlash(Drop(s, 1))
                 ELSE IF Ch(s, Len(s)) = "/" THEN StripSlash(Take(s, Len(s) - 1)) ELSE s
RelPath(path, name) == JoinStr(NormParts(<<>>, DirParts(path) \o Split(name, "/")), "/")
BaseName(path) == LET q == Split(path, "/") IN q[Len(q)]

Sources == {"metatabrowgenerator", "textrowgenerator"}       \* rows that are not from a file
(* files: path -> rows; a name starting with "!" is a declaration that comes with the library *)
DeclPath(files, path, name) ==
  IF ("!" \o name) \in DOMAIN files THEN "!" \o name
  ELSE IF RelPath(path, name) \in DOMAIN files THEN RelPath(path, name) ELSE RelPath(path, name \o ".csv")
SrcName(path) == IF path # "" /\ Ch(path, 1) = "!" THEN Drop(path, 1) \o ".csv" ELSE Slug(BaseName(path))

ReadRow(ps, row, num, files, path, ft, parents) ==
  IF ps.x # "" \/ Skipped(row) THEN ps
  ELSE
  LET nm  == SplitName(Txt(row[1]))
      rn  == ToString(num)
      f   == SrcName(path)
      val == IF Len(row) > 1 THEN CellVal(row[2]) ELSE "N"
      args == RowCells(row)
      cls == ClassOf(ps.reg, PsSup(ps), nm.p \o "." \o nm.r)
  IN
  IF ~nm.ok THEN Fail(ps, "ValueError", "", rn, f)
  ELSE IF nm.p = ROOT /\ nm.r \in {"include", "declare"} THEN
    LET t == MkTerm(ROOT, nm.r, val, args, rn, "1", f, cls)
        target == IF nm.r = "include" THEN RelPath(path, StripSlash(Strip(Txt(val)))) ELSE DeclPath(files, path, Strip(Txt(val)))
    IN  IF target \notin DOMAIN files \/ (nm.r = "include" /\ path \in Sources)
        THEN Fail(ps, "IncludeError", nm.r, rn, f)
        ELSE IF target \in parents THEN Fail(ps, "IncludeError", nm.r, rn, f)
        ELSE LET p1 == Manage(Arrive(ps, t).ps, t, ft)
                 p2 == ReadFile(p1, files[target], files, target, nm.r, parents \cup {target})
                 p3 == [p2 EXCEPT !.gs = ps.gs]
             IN  IF p2.x # "" THEN p2 ELSE EnterSec(p3, ps.gs)
  ELSE IF nm.p = ROOT /\ nm.r = "section" THEN
    IF val = "N" THEN Fail(ps, "AttributeError", nm.r, rn, f)
    ELSE LET i == SecIdx(ps.S, Txt(val))
             declared == IF Lower(Txt(val)) \in DOMAIN ps.D.S THEN ps.D.S[Lower(Txt(val))].a ELSE <<>>
             cols == IF Len(row) > 2 THEN Strs(args) ELSE declared
             p1 == IF i # 0 THEN ps ELSE [ps EXCEPT !.S = Append(@, NewSec(Txt(val), cols, ft = "declare"))]
             ix == IF i # 0 THEN i ELSE Len(p1.S)
         IN  EnterSec([p1 EXCEPT !.gs = ix], ix)
  ELSE
    LET q  == nm.p \o "." \o nm.r
        sy == DeclOf(ps.T, q).syn
        n2 == IF sy # "" THEN SplitName(sy) ELSE nm
        r2 == Remap(ps.pm, n2.r)
        t  == MkTerm(n2.p, r2, val, args, rn, "1", f, cls)
    IN  IF n2.p = ROOT /\ r2 = "header" THEN
          LET dv == IF val = "N" \/ Blank(Txt(val)) THEN ATVAL ELSE Lower(Txt(val))
          IN  [ps EXCEPT !.pm = Munge(Strs(args)), !.dv = dv, !.S[ps.cur].h = Strs(args), !.S[ps.cur].dv = dv]
        ELSE LET a0 == Arrive(ps, t)
                 p1 == Manage(a0.ps, t, ft)
             IN  FoldLeft(LAMBDA a, i :
                   IF a.x # "" \/ Blank(PyStr(args[i])) THEN a
                   ELSE ArriveArg(a, MkTerm(r2, Remap(a.pm, ToString(i - 1)), CellVal("S" \o PyStr(args[i])), <<>>,
                                         rn, ToString(i + 1), f, "Term"), a0.path),
                   p1, IdxSeq(Len(args)))

(* the rows of a file; an included file starts in the current section *)
ReadFile(ps, rows, files, path, ft, parents) ==
  FoldLeft(LAMBDA a, i : ReadRow(a, rows[i], i, files, path, ft, parents), [ps EXCEPT !.gs = ps.cur], IdxSeq(Len(rows)))

StartLoad(D, reg) ==
  LET r == SecIdx(D.secs, "root") IN
  [S |-> D.secs, cur |-> r, gs |-> r, lp |-> ROOT, ltm |-> EmptyFn, pm |-> <<>>, dv |-> ATVAL,
   T |-> D.dc.T @@ InstallTerms, DS |-> D.dc.S @@ InstallSecs, D |-> D.dc, n |-> DocTerms(D.secs), reg |-> reg, x |-> "", xt |-> NoErr]

EndLoad(ps) ==
  [secs |-> SelectSeq(ps.S, LAMBDA s : ~s.det),
   dc   |-> [T |-> ps.T @@ ps.D.T, S |-> ps.DS,
             sup |-> PsSup(ps) @@ ps.D.sup]]

(* load rows that come from a source (a name without directory) or a file into document D *)
Load(D, reg, rows, files, path) ==
  LET ps == ReadFile(StartLoad(D, reg), rows, files, path, "", {path})
  IN  [x |-> ps.x, xt |-> ps.xt, d |-> EndLoad(ps)]
=============================================================================
