------------------------------ MODULE MCInclude -----------------------------
(* Bounded model of files that include and declare files: every way to fill *)
(* the files with rows from their menus.  Reading is compared with reading  *)
(* one list of rows in which the included rows stand where they were        *)
(* included, followed by a row that returns to the including section.       *)
EXTENDS MMask, Json, IOUtils

Menu == JsonDeserialize(IOEnv.VMENU)         \* sequence of [path, pre: first rows, n number of rows in all, rows: menu]
M    == Len(Menu)
MAIN == Menu[1].path

VARIABLES files, open                         \* open: the file that is being filled
vars == <<files, open>>
Init == files = [p \in {Menu[i].path : i \in 1..M} |-> LET i == CHOOSE i \in 1..M : Menu[i].path = p IN Menu[i].pre] /\ open = 1
Result(fs) == Load(EmptyDoc, EmptyFn, fs[MAIN], fs, MAIN)
Next == \/ /\ open <= M /\ Len(files[Menu[open].path]) < Menu[open].n
           /\ \E i \in 1..Len(Menu[open].rows) : files' = [files EXCEPT ![Menu[open].path] = Append(@, Menu[open].rows[i])]
           /\ open' = open
        \/ /\ open <= M /\ Len(files[Menu[open].path]) = Menu[open].n
           /\ open' = open + 1 /\ files' = files
           /\ open < M \/ PrintT("HIST " \o ToJson(files))
Spec == Init /\ [][Next]_vars
Done == open > M

IsRow(row, r) == ~Skipped(row) /\ SplitName(Txt(row[1])).p = ROOT /\ SplitName(Txt(row[1])).r = r
Target(path, row) == RelPath(path, StripSlash(Strip(Txt(row[2]))))
(* whether reading the file reaches a file that is being read, or one that is not there *)
RECURSIVE Sound(_, _)
Sound(path, up) == \A i \in 1..Len(files[path]) :
  IsRow(files[path][i], "include") =>
    LET t == Target(path, files[path][i]) IN t \in DOMAIN files /\ t \notin up /\ Sound(t, up \cup {t})
(* the rows, spliced: sec is the name of the section in force *)
RECURSIVE Splice(_, _, _)
Splice(path, i, sec) ==
  IF i > Len(files[path]) THEN <<>>
  ELSE LET row == files[path][i] IN
       IF IsRow(row, "include")
       THEN <<<<"SIncludd", row[2]>>>> \o Splice(Target(path, row), 1, sec) \o <<<<"SSection", "S" \o sec>>>> \o Splice(path, i + 1, sec)
       ELSE <<row>> \o Splice(path, i + 1, IF IsRow(row, "section") THEN Txt(row[2]) ELSE sec)
RECURSIVE Ren(_)
Ren(t) == [t EXCEPT !.r = IF @ = "include" THEN "includd" ELSE @, !.p = IF @ = "include" THEN "includd" ELSE @, !.k = [i \in 1..Len(@) |-> Ren(@[i])]]
RenSecs(S) == [i \in 1..Len(S) |-> [S[i] EXCEPT !.t = [j \in 1..Len(@) |-> Ren(@[j])]]]
HasElidedParent(q) == \E i \in 1..Len(q) : SplitName(Txt(q[i][1])).p = "include"

InvSplice == Done /\ Sound(MAIN, {MAIN}) =>
  LET g == Result(files)
      w == Load(EmptyDoc, EmptyFn, Splice(MAIN, 1, "Root"), files, MAIN)
  IN  /\ g.x = w.x
      /\ g.x = "" => M07(RenSecs(g.d.secs)) = M07(w.d.secs) /\ RankPaths(g.d.secs) = RankPaths(w.d.secs)
InvUnsound == Done /\ ~Sound(MAIN, {MAIN}) => Result(files).x \in {"IncludeError", "ParserError"}
(* a failure is placed in a file that has the row *)
InvPlace == Done /\ Result(files).x = "IncludeError" =>
  LET t == Result(files).xt IN \E p \in DOMAIN files : SrcName(p) = t.f /\ NatOf(t.row) <= Len(files[p]) /\ IsRow(files[p][NatOf(t.row)], t.r)
(* every term is placed at a row of the file it names *)
RECURSIVE AllIn(_)
AllIn(t) == (\E p \in DOMAIN files : SrcName(p) = t.f /\ NatOf(t.row) \in 1..Len(files[p])) /\ \A i \in 1..Len(t.k) : AllIn(t.k[i]) /\ t.k[i].f # ""
InvRowFile == Done /\ Result(files).x = "" => LET S == Result(files).d.secs IN \A i \in 1..Len(S) : \A j \in 1..Len(S[i].t) : AllIn(S[i].t[j])

(* ---- declarations: the last row that declares a name is the one in force ---- *)
DeclFile == Menu[2].path
Rows2 == files[DeclFile]
DRow(name) == LET I == {i \in 1..Len(Rows2) : IsRow(Rows2[i], "declareterm") /\ Normal(Txt(Rows2[i][2])) = name}
              IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
Col(i, c) == IF i = 0 \/ Len(Rows2[i]) < c THEN "" ELSE Txt(Rows2[i][c])
RECURSIVE TypedAs(_, _)
TypedAs(t, dv) ==
  LET i == DRow(t.p \o "." \o t.r) IN
  /\ i # 0 => t.tv = Or(Col(i, 3), dv) /\ t.cp = Or(Col(i, 4), "any")
  /\ \A n \in 1..Len(t.k) : TypedAs(t.k[n], dv)
(* main declares on its first row; the declaration file has rows DeclareTerm, name, value name, property type, section, synonym, inherits *)
InvTyped == Done /\ Result(files).x = "" =>
  LET d == Result(files).d IN
  /\ \A i \in 1..Len(d.secs) : \A j \in 1..Len(d.secs[i].t) : d.secs[i].t[j].r # "declare" => TypedAs(d.secs[i].t[j], d.secs[i].dv)
  /\ \A i \in 1..Len(Rows2) : IsRow(Rows2[i], "declareterm") => Normal(Txt(Rows2[i][2])) \in DOMAIN d.dc.T
  /\ \A i \in 1..Len(d.secs) : LET k == Lower(d.secs[i].n) IN
        (k \in DOMAIN d.dc.S /\ k # ROOT) => d.secs[i].a \in {d.dc.S[k].a} \cup {Strs(RowCells(r)) : r \in {files[MAIN][n] : n \in {n \in 1..Len(files[MAIN]) : IsRow(files[MAIN][n], "section")}}}
InvSyn == Done /\ Result(files).x = "" =>
  LET d == Result(files).d IN \A p \in SetOf(AllPaths(d.secs)) : LET t == SGet(d.secs, p) IN t.col = "1" => Col(DRow(Join(t)), 6) = "" \/ p[2] = 1
(* a term that inherits has the children that were declared for its superclass in its section, with their types *)
InvInherit == Done /\ Result(files).x = "" =>
  LET d == Result(files).d IN
  \A i \in 1..Len(Rows2) : IsRow(Rows2[i], "declareterm") /\ Col(i, 7) # "" =>
    /\ Normal(Txt(Rows2[i][2])) \in DOMAIN d.dc.sup
    /\ \A j \in 1..(i - 1) : IsRow(Rows2[j], "declareterm") /\ Lower(Col(j, 5)) = Lower(Col(i, 5))
                              /\ SplitName(Txt(Rows2[j][2])).p = SplitName(Col(i, 7)).r /\ HasCh(Txt(Rows2[j][2]), ".") =>
         LET k == SplitName(Txt(Rows2[i][2])).r \o "." \o SplitName(Txt(Rows2[j][2])).r IN
         /\ k \in DOMAIN d.dc.T
         /\ (DRow(k) = 0 /\ \A n \in 1..Len(Rows2) : n \notin {i, j} => Rows2[n] \notin {Rows2[i], Rows2[j]}) =>
              d.dc.T[k].tvn = Col(j, 3) /\ d.dc.T[k].cpt = Col(j, 4)
InvDeclErr == Done /\ Result(files).x = "DeclarationError" =>
  \E i \in 1..Len(Rows2) : IsRow(Rows2[i], "declareterm") /\ (Col(i, 7) # "" \/ Col(i, 5) # "")
=============================================================================
