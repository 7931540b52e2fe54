-------------------------------- MODULE MEdit -------------------------------
(* Editing a document.  Every operator gives the document after the edit.   *)
EXTENDS MDict, MParse

Rerank(S) ==
  LET q == RootPaths(S)
      R == {SGet(S, q[n]).o : n \in 1..Len(q)}
  IN  [i \in 1..Len(S) |-> [S[i] EXCEPT !.t = [j \in 1..Len(@) |-> [@[j] EXCEPT !.o = Cardinality({o \in R : o <= @})]]]]

WithSecs(D, S) == [D EXCEPT !.secs = S]

(* ---- sections ---- *)
DeclCols(D, name) == IF Lower(name) \in DOMAIN D.dc.S THEN D.dc.S[Lower(name)].a ELSE <<>>
StripAll(q) == [i \in 1..Len(q) |-> Strip(q[i])]
NewSection(D, name, cols) ==        \* a name that is not in use
  LET a == IF Lower(name) \in DOMAIN D.dc.S THEN DeclCols(D, name) ELSE StripAll(cols)
  IN  WithSecs(D, Append(D.secs, NewSec(name, a, FALSE)))
GetOrNewSection(D, name, cols) ==
  IF SecIdx(D.secs, name) # 0 THEN D
  ELSE WithSecs(D, Append(D.secs, NewSec(name, IF cols # <<>> THEN StripAll(cols) ELSE DeclCols(D, name), FALSE)))
DelSection(D, name) ==
  LET i == SecIdx(D.secs, name) IN IF i = 0 THEN D ELSE WithSecs(D, Rerank(RemoveIdx(D.secs, i)))
RECURSIVE Uniq(_, _)
Uniq(q, acc) == IF q = <<>> THEN acc ELSE Uniq(Tail(q), IF \E i \in 1..Len(acc) : acc[i] = Head(q) THEN acc ELSE Append(acc, Head(q)))
SortSections(D, order) ==
  LET ix == SelectSeq(Uniq([i \in 1..Len(order) |-> SecIdx(D.secs, order[i])], <<>>), LAMBDA i : i # 0)
      rest == SelectSeq(IdxSeq(Len(D.secs)), LAMBDA i : ~\E j \in 1..Len(ix) : ix[j] = i)
      all == ix \o rest
  IN  WithSecs(D, [i \in 1..Len(all) |-> D.secs[all[i]]])

CleanArgs(q) == SelectSeq(StripAll(q), LAMBDA e : e # "")
HasArg(q, a) == \E i \in 1..Len(q) : Lower(q[i]) = Lower(a)
AddArg(D, i, a, front) ==
  LET q == CleanArgs(D.secs[i].a)
      q1 == IF HasArg(q, a) THEN q ELSE IF front THEN <<Title(a)>> \o q ELSE Append(q, Title(a))
  IN  [D EXCEPT !.secs[i].a = q1]
RmArg(D, i, a) == [D EXCEPT !.secs[i].a = SelectSeq(CleanArgs(@), LAMBDA e : Lower(e) # Lower(a))]

(* ---- ordering of names, by character ---- *)
ORD == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~ÉÑÜéñü"
OrdOf == [c \in CharSet(ORD) |-> Find1(ORD, c)]
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE IF Ch(a, i) = Ch(b, i) THEN LessFrom(a, b, i + 1) ELSE OrdOf[Ch(a, i)] < OrdOf[Ch(b, i)]
Less(a, b) == LessFrom(a, b, 1)
InsertTerm(q, t) ==                 \* after every term with a name that is not greater
  LET i == LastIdx(q, LAMBDA e : ~Less(Join(t), Join(e))) IN SubSeq(q, 1, i) \o <<t>> \o SubSeq(q, i + 1, Len(q))
SortByName(q) == FoldLeft(LAMBDA a, t : InsertTerm(a, t), <<>>, q)
SortTerms(D, i, given, order) ==
  LET q == D.secs[i].t
      pick == FoldLeft(LAMBDA a, nm : [out |-> a.out \o SelectSeq(a.rest, LAMBDA t : TermIs(t.p, t.r, nm)),
                                       rest |-> SelectSeq(a.rest, LAMBDA t : ~TermIs(t.p, t.r, nm))],
                       [out |-> <<>>, rest |-> q], IF given THEN order ELSE <<>>)
  IN  [D EXCEPT !.secs[i].t = pick.out \o SortByName(pick.rest)]

(* ---- terms ---- *)
StrVal(v) == IF v = "N" THEN "N" ELSE CellVal("S" \o Txt(v))
NewKid(D, pr, name, v, cls) ==      \* a child without children
  LET r == SplitName(name).r
      d == DeclOf(D.dc.T, pr \o "." \o r)
  IN  [MkTerm(pr, r, v, <<>>, "-", "-", "<none>", cls) EXCEPT !.tv = Or(d.tvn, ATVAL), !.cp = Or(d.cpt, "any")]
Kids(D, pr, props) == [j \in 1..Len(props) |-> NewKid(D, pr, props[j][1], StrVal(props[j][2]), "Term")]

Append1(D, i, t) == [D EXCEPT !.secs[i].t = Append(@, [t EXCEPT !.o = DocTerms(D.secs) + 1])]
NewTerm(D, reg, i, name, v, props) ==
  LET r == SplitName(name).r
      d == DeclOf(D.dc.T, "root." \o r)
      s == D.secs[i]
      t == MkTerm(ROOT, r, CellVal(v), <<>>, "-", "-", "<none>", ClassOf(reg, D.dc.sup, "root." \o r))
  IN  Append1(D, i, [t EXCEPT !.tv = IF s.dv = ATVAL THEN Or(d.tvn, ATVAL) ELSE ATVAL, !.cp = Or(d.cpt, "any"),
                              !.k = Kids(D, r, props)])

SetAt(D, pth, t) == WithSecs(D, SPut(D.secs, pth, t))
NewChild(D, pth, name, v, props) ==
  LET t == SGet(D.secs, pth)
      c == NewKid(D, t.r, name, StrVal(v), "Term")
  IN  SetAt(D, pth, [t EXCEPT !.k = Append(@, [c EXCEPT !.k = Kids(D, c.r, props)])])

GonKidT(D, t, name, v) ==           \* without further properties
  LET r == SplitName(name).r
      i == KidIdx(t, r)
  IN  IF i = 0 THEN [t EXCEPT !.k = Append(@, NewKid(D, t.r, name, IF v = ABSENT THEN "N" ELSE CellVal(v), "Term"))]
      ELSE [t EXCEPT !.k[i].v = IF v = ABSENT THEN @ ELSE v]
GonKids(D, t, props) == FoldLeft(LAMBDA a, e : GonKidT(D, a, e[1], e[2]), t, props)
GetOrNewChildT(D, t, name, v, props) ==
  LET r == SplitName(name).r
      i == KidIdx(t, r)
      t1 == GonKidT(D, t, name, v)
      j == KidIdx(t1, r)
  IN  [t1 EXCEPT !.k[j] = IF i = 0 THEN [@ EXCEPT !.k = Kids(D, r, props)] ELSE GonKids(D, @, props)]
GetOrNewChild(D, pth, name, v, props) == SetAt(D, pth, GetOrNewChildT(D, SGet(D.secs, pth), name, v, props))

GetOrNewTerm(D, reg, i, name, v, props) ==
  LET p == First(D, name, v, <<D.secs[i].n>>) IN
  IF p = <<>> THEN NewTerm(D, reg, i, name, IF v = ABSENT THEN "N" ELSE v, props)
  ELSE LET t == SGet(D.secs, p)
       IN  SetAt(D, p, GonKids(D, [t EXCEPT !.v = IF v \in {ABSENT, "N"} THEN @ ELSE v], props))

RmKidT(t, i) == [t EXCEPT !.k = RemoveIdx(@, i)]
SetProp(D, pth, name, v) ==
  LET t == SGet(D.secs, pth)
      i == KidIdx(t, name)
  IN  IF IsOwn(t, name) THEN SetAt(D, pth, [t EXCEPT !.v = v])
      ELSE IF v = "N" THEN (IF i = 0 THEN D ELSE SetAt(D, pth, RmKidT(t, i)))
      ELSE SetAt(D, pth, GonKidT(D, t, name, v))
SetValue(D, pth, v) == SetAt(D, pth, [SGet(D.secs, pth) EXCEPT !.v = v])

RmTerm(D, pth)  == WithSecs(D, Rerank([D.secs EXCEPT ![pth[1]].t = RemoveIdx(@, pth[2])]))
RmChild(D, pth) == LET up == SubSeq(pth, 1, Len(pth) - 1) IN SetAt(D, up, RmKidT(SGet(D.secs, up), pth[Len(pth)]))
DelTerms(D, i, name) == WithSecs(D, Rerank([D.secs EXCEPT ![i].t = SelectSeq(@, LAMBDA t : ~TermIs(t.p, t.r, name))]))
CleanSection(D, i) == WithSecs(D, Rerank([D.secs EXCEPT ![i].t = <<>>]))
MoveTerm(D, pth, i) ==
  IF pth[1] = i THEN D
  ELSE LET t == SGet(D.secs, pth) IN WithSecs(D, [D.secs EXCEPT ![pth[1]].t = RemoveIdx(@, pth[2]), ![i].t = Append(@, t)])
SetTerms(D, reg, i, items) == FoldLeft(LAMBDA a, e : NewTerm(a, reg, i, e[1], e[2], e[3]), D, items)

(* ---- schema clean-up ---- *)
SchemaCols(s) ==                    \* the paths <<term, child>> of the column terms
  Concat([j \in 1..Len(s.t) |-> IF s.t[j].p = ROOT /\ s.t[j].r = "table"
            THEN LET q == SelectSeq(IdxSeq(Len(s.t[j].k)), LAMBDA n : s.t[j].k[n].r = "column") IN [n \in 1..Len(q) |-> <<j, q[n]>>]
            ELSE <<>>])
Filled(c) == ~Falsy(c.v) /\ ~Blank(Txt(c.v))
UsedCols(s) == UNION {{c.r : c \in {x \in SetOf(s.t[p[1]].k[p[2]].k) : Filled(x)}} : p \in SetOf(SchemaCols(s))}
CleanSchemaTerms(s) ==
  FoldLeft(LAMBDA a, p : [a EXCEPT !.t[p[1]].k[p[2]].k = SelectSeq(@, LAMBDA c : Filled(c))], s, SchemaCols(s)).t
(* the columns that were there keep their order; the new ones follow in any order *)
CleanSchemaArgsOk(s, got) ==
  LET used == UsedCols(s)
      low == {Lower(s.a[i]) : i \in 1..Len(s.a)}
      same == low \subseteq used /\ used \subseteq low
      kept == SelectSeq(CleanArgs(s.a), LAMBDA e : Lower(e) \in used)
      new  == SubSeq(got, Len(kept) + 1, Len(got))
  IN  IF same THEN got = s.a
      ELSE /\ Len(got) = Len(kept) + Cardinality(used \ low)
           /\ SubSeq(got, 1, Len(kept)) = kept
           /\ SetOf(new) = {Title(u) : u \in used \ low}
=============================================================================
