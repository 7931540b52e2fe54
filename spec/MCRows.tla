------------------------------- MODULE MCRows -------------------------------
(* Bounded model of reading: a document is written row by row from a menu,  *)
(* and the parser takes one step per row.  What the parser has built after  *)
(* any number of rows is compared with what the rows say, stated over the   *)
(* whole list of rows and without the parser's state (nearest preceding     *)
(* section row, nearest preceding row of the parent's name, ...).           *)
(* Every complete behaviour is printed, to be replayed in the library.      *)
EXTENDS MMask, MWrite, Json, IOUtils

Menu   == JsonDeserialize(IOEnv.VMENU)       \* [files, pre: the first rows, rows: the menu]
PATH   == "w/main.csv"
Files  == Menu.files
MaxLen == NatOf(IOEnv.VLEN) + Len(Menu.pre)

VARIABLES rows, ps,
          S, Paths         \* the sections that have been built and the paths of their terms, kept to compute them once
vars == <<rows, ps, S, Paths>>

Init == /\ rows = Menu.pre
        /\ ps = ReadFile(StartLoad(EmptyDoc, EmptyFn), Menu.pre, Files, PATH, "", {PATH})
        /\ S = EndLoad(ps).secs /\ Paths = SetOf(AllPaths(S))
Next == /\ Len(rows) < MaxLen /\ ps.x = ""
        /\ \E i \in 1..Len(Menu.rows) : rows' = Append(rows, Menu.rows[i])
        /\ ps' = ReadRow(ps, rows'[Len(rows')], Len(rows'), Files, PATH, "", {PATH})
        /\ S' = EndLoad(ps').secs /\ Paths' = SetOf(AllPaths(S'))
        /\ (Len(rows') = MaxLen \/ ps'.x # "") => PrintT("HIST " \o ToJson(rows'))
Spec == Init /\ [][Next]_vars

D == [secs |-> S, dc |-> EndLoad(ps).dc]
Good == ps.x = ""

(* ---- what the rows say ---- *)
N == Len(rows)
Nm(i)      == SplitName(Txt(rows[i][1]))
Content(i) == rows[i] # <<>> /\ LET s == Txt(rows[i][1]) IN \E k \in 1..Len(s) : (\A j \in 1..(k - 1) : Ch(s, j) = " ") /\ Ch(s, k) \notin {" ", "#"}
IsSec(i)   == Content(i) /\ Nm(i).p = ROOT /\ Nm(i).r = "section"
IsHdr(i)   == Content(i) /\ Nm(i).p = ROOT /\ Nm(i).r = "header"
IsTerm(i)  == Content(i) /\ ~IsSec(i) /\ ~IsHdr(i)
Own(i)     == IsTerm(i) /\ Nm(i).p # ELIDED            \* names its parent, or has none
MaxOf(I)   == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
MinOf(I)   == CHOOSE i \in I : \A j \in I : i <= j
SecRow(i)  == MaxOf({j \in 1..(i - 1) : IsSec(j)})     \* the section row that i is under
SecName(i) == IF SecRow(i) = 0 THEN "Root" ELSE Strip(Txt(rows[SecRow(i)][2]))
Value(i)   == IF Len(rows[i]) < 2 THEN "N" ELSE CellVal(rows[i][2])
Cell(i, c) == CellArg(rows[i][c + 1])                  \* cells are numbered from the value, which is 1
NCells(i)  == Len(rows[i]) - 1
Parent(i)  ==                                          \* 0: top level, -1: there is none
  IF Nm(i).p = ROOT THEN 0
  ELSE IF Nm(i).p = ELIDED THEN MaxOf({j \in 1..(i - 1) : Own(j) /\ j > SecRow(i)})
  ELSE LET m == MaxOf({j \in 1..(i - 1) : Own(j) /\ Nm(j).r = Nm(i).p}) IN IF m = 0 THEN 0 - 1 ELSE m
ColRow(i)  ==                                          \* the row that names the columns in force at i, 0 if there is none
  LET same == {j \in 1..(i - 1) : IsHdr(j) /\ Lower(SecName(j)) = Lower(SecName(i))}
      secs == {j \in 1..(i - 1) : IsSec(j) /\ Lower(Strip(Txt(rows[j][2]))) = Lower(SecName(i))}
  IN  IF same # {} THEN MaxOf(same) ELSE IF secs # {} /\ Lower(SecName(i)) # ROOT THEN MinOf(secs) ELSE 0
ColName(i, c) ==                                       \* the name of the property in cell c > 1
  LET r == ColRow(i) IN
  IF r = 0 \/ c > NCells(r) \/ Blank(Txt(Cell(r, c))) THEN ToString(c - 2) ELSE Lower(Txt(Cell(r, c)))

(* ---- what was built ---- *)
Of(i, c) == {p \in Paths : SGet(S, p).row = ToString(i) /\ SGet(S, p).col = ToString(c)}
The(i, c) == CHOOSE p \in Of(i, c) : TRUE
Up(p) == SubSeq(p, 1, Len(p) - 1)

Inv01 == Good =>
  /\ \A i \in 1..N : Cardinality(Of(i, 1)) = IF IsTerm(i) THEN 1 ELSE 0
  /\ \A i \in 1..N : IsTerm(i) => LET t == SGet(S, The(i, 1)) IN t.r = Nm(i).r /\ t.v = Value(i)
  /\ \A p \in Paths : \E i \in 1..N : SGet(S, p).row = ToString(i) /\ IsTerm(i)
  /\ LET q == ByRank(S) IN \A i, j \in 1..Len(q) : i < j => NatOf(q[i].row) < NatOf(q[j].row)
Inv02 == /\ Good => \A i \in 1..N : IsTerm(i) =>
              LET p == The(i, 1) IN
              /\ Parent(i) >= 0
              /\ Parent(i) = 0 => Len(p) = 2
              /\ Parent(i) > 0 => Up(p) = The(Parent(i), 1) /\ SGet(S, p).p = Nm(Parent(i)).r
         /\ ps.x = "ParserError" => Parent(N) = 0 - 1
         /\ ps.x \in {"", "ParserError"}
Inv03 == Good =>
  /\ \A p \in Paths : Len(p) = 2 => Lower(S[p[1]].n) = Lower(SecName(NatOf(SGet(S, p).row)))
  /\ \A p, q \in Paths : Len(p) = 2 /\ Len(q) = 2 /\ p[1] = q[1] /\ p[2] < q[2] => NatOf(SGet(S, p).row) < NatOf(SGet(S, q).row)
  /\ S[1].n = "Root"
  /\ LET first(k) == MinOf({j \in 1..N : IsSec(j) /\ Lower(Strip(Txt(rows[j][2]))) = Lower(S[k].n)}) IN
     /\ \A k \in 2..Len(S) : S[k].n = Strip(Txt(rows[first(k)][2]))
     /\ \A k, m \in 2..Len(S) : k < m => first(k) < first(m)
  /\ Cardinality({Lower(S[k].n) : k \in 1..Len(S)}) = Len(S)
Inv04 == Good => \A i \in 1..N : IsTerm(i) =>
  /\ \A c \in 2..NCells(i) :
       IF Blank(Txt(Cell(i, c))) THEN Of(i, c) = {}
       ELSE /\ Cardinality(Of(i, c)) = 1
            /\ Up(The(i, c)) = The(i, 1)
            /\ SGet(S, The(i, c)).r = ColName(i, c)
            /\ SGet(S, The(i, c)).v = "S" \o Txt(Cell(i, c))
  /\ \A c \in 2..NCells(i) : \A d \in 2..NCells(i) : c < d /\ Of(i, c) # {} /\ Of(i, d) # {} => The(i, c)[Len(The(i, c))] < The(i, d)[Len(The(i, d))]
Inv25 == Good => \A p, q \in Paths : (SGet(S, p).row = SGet(S, q).row /\ SGet(S, p).col = SGet(S, q).col => p = q) /\ SGet(S, p).f = "main.csv"
InvDoc == Good => DocOk(D)

(* ---- presentation: capital names, explicit Root, padding, blank rows and trailing blanks ---- *)
RECURSIVE UpFrom(_, _)
UpFrom(s, i) == IF i > Len(s) THEN "" ELSE UpCh(Ch(s, i)) \o UpFrom(s, i + 1)
Loud(row, k) ==
  LET n == Txt(row[1])
      special == SplitName(n).p = ROOT /\ SplitName(n).r \in {"section", "header"}
      nn == IF k = 1 /\ ~HasCh(n, ".") THEN "Root." \o n ELSE n
  IN  IF Skipped(row) THEN row
      ELSE [i \in 1..Len(row) |-> IF i = 1 THEN "S " \o UpFrom(nn, 1) \o " "
                                  ELSE IF special THEN "S" \o UpFrom(Txt(row[i]), 1) ELSE "S  " \o Txt(row[i]) \o " "]
           \o (IF special THEN <<>> ELSE <<"S", "S ">>)
Variant(k) == Concat([i \in 1..N |-> IF k = 2 THEN <<<<>>, Loud(rows[i], k), <<"S # no">>>> ELSE <<Loud(rows[i], k)>>])
Inv05 == Good => \A k \in 1..2 : LET w == Load(EmptyDoc, EmptyFn, Variant(k), Files, PATH)
                                 IN  w.x = "" /\ M05(w.d.secs) = M05(S) /\ NormRows(Variant(k)) = NormRows(rows)

(* ---- dictionaries: every value is there once ---- *)
RECURSIVE Leaves(_)
Leaves(n) == CASE n.k = "s" -> <<n.s>>
               [] n.k = "d" -> Concat([i \in 1..Len(n.d) |-> Leaves(n.d[i][2])])
               [] n.k = "l" -> Concat([i \in 1..Len(n.l) |-> Leaves(n.l[i])])
               [] OTHER -> <<>>
Held == SelectSeq(AllPaths(S), LAMBDA p : SGet(S, p).k = <<>> \/ ~Falsy(SGet(S, p).v))
Inv08 == Good => /\ Bag(Leaves(DocDict(D, TRUE))) = Bag([i \in 1..Len(Held) |-> SGet(S, Held[i]).v])
                 /\ (S[1].t = <<>> /\ Len(S) = 1) => DocDict(D, TRUE).d = <<>>

(* the children of one name, taken together, have the declared shape *)
NodeAt(n, key) == n.d[DIdx(n.d, key)][2]
Glued(q, sep) == Scal("S" \o JoinStr([i \in 1..Len(q) |-> CellStr(q[i].v)], sep))
Shaped(t, rep) ==
  LET n == Conv(t, rep)
      own == IF Falsy(t.v) THEN {} ELSE {IF rep THEN Lower(t.tv) ELSE ATVAL}
      names == {t.k[i].r : i \in 1..Len(t.k)}
  IN  IF t.k = <<>> THEN n = Scal(t.v)
      ELSE /\ n.k = "d" /\ {n.d[i][1] : i \in 1..Len(n.d)} = names \cup own /\ Len(n.d) = Cardinality(names \cup own)
           /\ \A r \in own : NodeAt(n, r) = Scal(t.v)
           /\ \A r \in names \ own :
                LET q == SelectSeq(t.k, LAMBDA c : c.r = r)
                    all == [i \in 1..Len(q) |-> Conv(q[i], rep)]
                    flat == \A i \in 1..Len(q) : q[i].k = <<>>
                IN  CASE q[1].cp = "scalar"   -> NodeAt(n, r) = all[Len(all)]
                      [] q[1].cp = "sequence" -> NodeAt(n, r) = ListN(all)
                      [] q[1].cp = "sconcat"  -> flat => NodeAt(n, r) = Glued(q, " ")
                      [] q[1].cp = "bconcat"  -> flat => NodeAt(n, r) = Glued(q, "")
                      [] OTHER -> NodeAt(n, r) = IF Len(q) = 1 THEN all[1] ELSE ListN(all)
Inv08s == Good => \A p \in Paths : Shaped(SGet(S, p), TRUE) /\ Shaped(SGet(S, p), FALSE)

(* ---- writing: what the canonical writer writes is read as the same document ---- *)
Inv09 == Good /\ Fits(D, "csv") => LET w == Load(EmptyDoc, EmptyFn, CsvRows(D), Files, PATH) IN w.x = "" /\ Equiv(w.d, D, TRUE)
Inv10 == Good /\ Fits(D, "lines") => LET w == Load(EmptyDoc, EmptyFn, TextRows(LinesText(D)), Files, PATH) IN w.x = "" /\ Equiv(w.d, D, TRUE)

(* ---- searching ---- *)
Names == {SGet(S, p).r : p \in Paths}
Inv12 == Good =>
  /\ \A r \in Names : LET f == FindOne(S, "Root." \o r, ABSENT, <<>>, <<>>) IN
       /\ SetOf(f) = {p \in Paths : Len(p) = 2 /\ SGet(S, p).r = r}
       /\ f = FindOne(S, r, ABSENT, <<>>, <<>>) /\ f = FindOne(S, UpFrom(r, 1), ABSENT, <<>>, <<>>)
       /\ \A i, j \in 1..Len(f) : i < j => SGet(S, f[i]).o < SGet(S, f[j]).o
       /\ Firsts(D, <<r>>, ABSENT, <<>>, <<>>) = (IF f = <<>> THEN {} ELSE {f[1]})
  /\ SetOf(FindOne(S, "*.*", ABSENT, <<>>, <<>>)) = Paths \cup {<<k>> : k \in 2..Len(S)}
  /\ \A r \in Names : SetOf(FindOne(S, "*." \o r, ABSENT, <<>>, <<>>)) = {p \in Paths : SGet(S, p).r = r}
  /\ \A r, q \in Names : SetOf(FindOne(S, r \o "." \o q, ABSENT, <<>>, <<>>)) = {p \in Paths : Len(p) > 2 /\ SGet(S, p).r = q /\ SGet(S, Up(p)).r = r}
  /\ \A k \in 1..Len(S) : \A nm \in {S[k].n, UpFrom(S[k].n, 1), Lower(S[k].n)} :
       SetOf(FindOne(S, "*.*", ABSENT, <<nm>>, <<>>)) = {p \in Paths : p[1] = k}
  /\ \A p \in Paths : LET t == SGet(S, p) IN
       /\ SetOf(FindOne(S, "*." \o t.r, t.v, <<>>, <<>>)) = {q \in Paths : SGet(S, q).r = t.r /\ SameVal(SGet(S, q).v, t.v)}
       /\ SetOf(FindOne(S, t.p \o ".*", ABSENT, <<>>, <<>>)) = {q \in Paths : SGet(S, q).p = t.p}

(* ---- parts ---- *)
Part18(a, b) == SubSeq(rows, a, b)
Inv18 == Good => \A k \in 2..N : IsSec(k) /\ (\A i \in k..N : IsTerm(i) /\ Parent(i) > 0 => Parent(i) >= k) =>
  LET d1 == Load(EmptyDoc, EmptyFn, Part18(1, k - 1), Files, PATH).d
      w == Load(d1, EmptyFn, Part18(k, N), Files, PATH)
  IN  w.x = "" /\ M07(w.d.secs) = M07(S) /\ RankPaths(w.d.secs) = RankPaths(S)

(* ---- schema clean-up and datapackages ---- *)
Sc == SecIdx(S, "schema")
Cleaned(s) == [s EXCEPT !.t = CleanSchemaTerms(s), !.a = SelectSeq(CleanArgs(s.a), LAMBDA e : Lower(e) \in UsedCols(s))
                                                         \o SetToSeq({Title(u) : u \in UsedCols(s) \ {Lower(s.a[i]) : i \in 1..Len(s.a)}})]
Inv26 == Good /\ Sc # 0 =>
  LET s == S[Sc]
      c == Cleaned(s)
      same(a, b) == a = [b EXCEPT !.k = a.k]
  IN  /\ {Lower(c.a[i]) : i \in 1..Len(c.a)} = {k.r : k \in {k \in UNION {SetOf(x.k) : x \in UNION {{y \in SetOf(t.k) : y.r = "column"} :
                                                    t \in {t \in SetOf(s.t) : t.r = "table"}}} : k.v # "N"}}
      /\ CleanSchemaArgsOk(c, c.a) /\ CleanSchemaTerms(c) = c.t                     \* once is enough
      /\ UsedCols(c) = UsedCols(s)
      (* only properties of columns go, and only those without a value *)
      /\ Len(c.t) = Len(s.t)
      /\ \A i \in 1..Len(s.t) : /\ same(c.t[i], s.t[i]) /\ Len(c.t[i].k) = Len(s.t[i].k)
                               /\ \A j \in 1..Len(s.t[i].k) : LET x == s.t[i].k[j] IN
                                    c.t[i].k[j] = IF s.t[i].r = "table" /\ x.r = "column" THEN [x EXCEPT !.k = SelectSeq(@, LAMBDA k : k.v # "N")] ELSE x
Inv24 == Good /\ PackOk(D) =>
  LET w == Pack(D)
      rs == SecIdx(S, "resources")
  IN  IF w.x # "" THEN w.n.k = "x"
      ELSE LET res == w.n.d[DIdx(w.n.d, "resources")][2].l
               files == IF rs = 0 THEN <<>> ELSE SelectSeq(S[rs].t, LAMBDA t : t.r = "datafile")
               kid(t, r) == LET q == SelectSeq(t.k, LAMBDA c : c.r = r) IN IF q = <<>> THEN "-" ELSE q[Len(q)].v
               tabs(v) == SelectSeq(S[Sc].t, LAMBDA t : t.v = v)
               tab(t) == IF tabs(kid(t, "name")) # <<>> THEN tabs(kid(t, "name")) ELSE tabs(kid(t, "table"))
               used == SelectSeq(files, LAMBDA t : tab(t) # <<>>)
           IN  /\ Sc # 0 /\ DIdx(w.n.d, "name") # 0
               /\ Len(res) = Len(used)
               /\ \A i \in 1..Len(res) :
                    LET t == used[i]
                        q == tab(t)
                        cols == SelectSeq(q[Len(q)].k, LAMBDA c : c.r = "column")
                        got == NodeAt(NodeAt(res[i], "schema"), "fields").l
                    IN  /\ At(res[i].d, "path") = t.v /\ At(res[i].d, "name") = kid(t, "name")
                        /\ Len(got) = Len(cols)
                        /\ \A c \in 1..Len(cols) : /\ At(got[c].d, "name") = cols[c].v
                                                  /\ At(got[c].d, "description") = kid(cols[c], "description")
                                                  /\ At(got[c].d, "type") = CASE kid(cols[c], "datatype") = "Sint" -> "Sinteger" [] kid(cols[c], "datatype") = "Sstr" -> "Sstring" [] OTHER -> "N"
=============================================================================
