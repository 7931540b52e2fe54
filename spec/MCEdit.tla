------------------------------- MODULE MCEdit -------------------------------
(* Bounded model of editing: from each starting document, every sequence of *)
(* operations from a menu up to a length.  The effect of each operation is  *)
(* compared with a statement of what it may and may not change, written as  *)
(* a relation between the documents before and after, and the invariants    *)
(* are those of every document.  Documents that are equal are explored once *)
(* (VIEW); every transition is printed with a shortest history that reaches *)
(* it, to be replayed in the library.                                       *)
EXTENDS MMask, MWrite, Json, IOUtils

Menu   == JsonDeserialize(IOEnv.VMENU)       \* [files, starts: sequence of [decl, rows], ops: sequence of operations]
MaxLen == NatOf(IOEnv.VLEN)
Quiet  == "VQUIET" \in DOMAIN IOEnv
PATH   == "w/main.csv"
UID    == "01234567-89ab-cdef-0123-456789abcdef"

VARIABLES start, D, hist, m           \* m: what the last operation reported
vars == <<start, D, hist, m>>
View == <<start, D, m>>

Init == /\ start \in 1..Len(Menu.starts)
        /\ D = Load(EmptyDoc, EmptyFn, Menu.starts[start], Menu.files, PATH).d
        /\ hist = <<>> /\ m = <<>>

Can(e) == CASE e.op \in {"rmterm", "moveterm"} -> Len(e.pth) = 2 /\ SOk(D.secs, e.pth) /\ (e.op = "moveterm" => e.s <= Len(D.secs))
            [] e.op = "rmchild" -> Len(e.pth) > 2 /\ SOk(D.secs, e.pth)
            [] e.op = "setattr" -> SOk(D.secs, e.pth) /\ (HasArg(PropNames(D.secs[e.pth[1]]), e.name) \/ IsOwn(SGet(D.secs, e.pth), e.name))
            [] e.op \in {"newchild", "gonchild", "setprop", "setvalue"} -> SOk(D.secs, e.pth)
            [] e.op \in {"newterm", "gonterm", "addarg", "rmarg", "delterms", "cleansec", "sortterms", "setterms", "setitem", "addnew"} -> e.s <= Len(D.secs)
            [] e.op = "newsec" -> SecIdx(D.secs, e.name) = 0
            [] e.op = "delsec" -> Lower(e.name) # ROOT
            [] OTHER -> TRUE
IsIdent(e) == e.op \in IdentOps
Next == /\ Len(hist) < MaxLen
        /\ \E i \in 1..Len(Menu.ops) :
             LET e == Menu.ops[i]
                 w == IF IsIdent(e) THEN IdentStep(D, e, UID) ELSE LET x == Step(D, EmptyFn, e) IN [x |-> x.x, d |-> x.d, m |-> <<>>]
             IN  /\ Can(e) = TRUE
                 /\ D' = w.d /\ m' = (IF IsIdent(e) THEN w.m ELSE <<>>)
                 /\ hist' = Append(hist, i)
        /\ start' = start
        /\ Quiet \/ PrintT("HIST " \o ToJson(<<start>> \o hist'))
Spec == Init /\ [][Next]_vars

(* ---- every document ---- *)
InvDoc == DocOk(D)
Inv09 == Fits(D, "csv") => LET w == Load(EmptyDoc, EmptyFn, CsvRows(D), Menu.files, PATH) IN w.x = "" /\ Equiv(w.d, D, FALSE)
Inv10 == Fits(D, "lines") => LET w == Load(EmptyDoc, EmptyFn, TextRows(LinesText(D)), Menu.files, PATH) IN w.x = "" /\ Equiv(w.d, D, FALSE)
Paths == SetOf(AllPaths(D.secs))
Inv12 == /\ SetOf(FindOne(D.secs, "*.*", ABSENT, <<>>, <<>>)) = Paths \cup {<<k>> : k \in {k \in 1..Len(D.secs) : D.secs[k].n # "Root"}}
         /\ \A p \in Paths : LET t == SGet(D.secs, p)
                                 f == FindOne(D.secs, Join(t), t.v, <<D.secs[p[1]].n>>, <<>>)
                             IN  /\ Cardinality({i \in 1..Len(f) : f[i] = p}) = 1
                                 /\ Len(p) = 2 => \A i, j \in 1..Len(f) : i < j => SGet(D.secs, f[i]).o < SGet(D.secs, f[j]).o
Inv14 == \A p \in Paths : LET t == SGet(D.secs, p) IN
           /\ GetVal(t, "value") = t.v /\ GetVal(t, t.tv) = t.v
           /\ \A i \in 1..Len(t.k) : ~IsOwn(t, t.k[i].r) => \E j \in 1..i : t.k[j].r = t.k[i].r /\ GetVal(t, t.k[i].r) = t.k[j].v

(* ---- what an operation may change: A the document before, B the one after ---- *)
RECURSIVE Flat0(_)
Flat0(t) == [t EXCEPT !.o = 0]
Flat1(q) == [i \in 1..Len(q) |-> Flat0(q[i])]
Secs0(S) == [i \in 1..Len(S) |-> [S[i] EXCEPT !.t = Flat1(@)]]
Tops(S)  == Bag(Concat([i \in 1..Len(S) |-> Flat1(S[i].t)]))
RankSeq(S) == LET q == ByRank(S) IN Flat1(q)
SamePlaces(A, B, s) == \A i \in 1..Len(A.secs) : i # s => Secs0(A.secs)[i] = Secs0(B.secs)[i]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
OthersKept(t, u, name) == \A r \in {t.k[i].r : i \in 1..Len(t.k)} \ {Lower(name)} :
                             SelectSeq(t.k, LAMBDA c : c.r = r) = SelectSeq(u.k, LAMBDA c : c.r = r)
SubOrder(p, q) == p = SelectSeq(q, LAMBDA x : \E i \in 1..Len(p) : p[i] = x)     \* p in the order of q

Allowed(A, e, B) ==
  /\ B.dc = A.dc
  /\ CASE e.op = "newsec"  -> Prefix(A.secs, B.secs) /\ Len(B.secs) = Len(A.secs) + 1 /\ B.secs[Len(B.secs)].n = e.name /\ B.secs[Len(B.secs)].t = <<>>
       [] e.op = "gonsec"  -> /\ Prefix(A.secs, B.secs) /\ Len(B.secs) = Len(A.secs) + (IF SecIdx(A.secs, e.name) = 0 THEN 1 ELSE 0)
                              /\ SecIdx(B.secs, e.name) # 0
       [] e.op = "delsec"  -> /\ SecIdx(B.secs, e.name) = 0
                              /\ Secs0(B.secs) = SelectSeq(Secs0(A.secs), LAMBDA s : Lower(s.n) # Lower(e.name))
       [] e.op = "sortsecs" -> /\ Bag(B.secs) = Bag(A.secs)
                               /\ LET named == {Lower(e.order[i]) : i \in 1..Len(e.order)}
                                      rest(S) == SelectSeq(S, LAMBDA s : Lower(s.n) \notin named)
                                      k == Len(A.secs) - Len(rest(A.secs))
                                  IN  /\ SubSeq(B.secs, k + 1, Len(B.secs)) = rest(A.secs)
                                      /\ \A i, j \in 1..k : i < j =>
                                           FirstIdx(e.order, LAMBDA n : Lower(n) = Lower(B.secs[i].n)) < FirstIdx(e.order, LAMBDA n : Lower(n) = Lower(B.secs[j].n))
       [] e.op \in {"addarg", "rmarg"} -> /\ [B.secs EXCEPT ![e.s].a = A.secs[e.s].a] = A.secs
                                          /\ Len(SelectSeq(B.secs[e.s].a, LAMBDA x : Lower(x) = Lower(e.name))) = IF e.op = "addarg" THEN 1 ELSE 0
                                          /\ e.op = "addarg" => IF HasArg(A.secs[e.s].a, e.name) THEN B.secs[e.s].a = CleanArgs(A.secs[e.s].a)
                                                                ELSE Lower(B.secs[e.s].a[IF e.front THEN 1 ELSE Len(B.secs[e.s].a)]) = Lower(e.name)
                                          /\ SelectSeq(B.secs[e.s].a, LAMBDA x : Lower(x) # Lower(e.name)) = SelectSeq(CleanArgs(A.secs[e.s].a), LAMBDA x : Lower(x) # Lower(e.name))
       [] e.op = "newterm" -> /\ Len(B.secs[e.s].t) = Len(A.secs[e.s].t) + 1 /\ Prefix(A.secs[e.s].t, B.secs[e.s].t)
                              /\ \A i \in 1..Len(A.secs) : i # e.s => A.secs[i] = B.secs[i]
                              /\ RmTerm(B, <<e.s, Len(B.secs[e.s].t)>>) = A
       [] e.op = "setterms" -> /\ Len(B.secs[e.s].t) = Len(A.secs[e.s].t) + Len(e.items) /\ Prefix(A.secs[e.s].t, B.secs[e.s].t)
                               /\ \A i \in 1..Len(A.secs) : i # e.s => A.secs[i] = B.secs[i]
       [] e.op = "addnew" -> /\ SplitName(e.name).p # ROOT => A = B
                             /\ SplitName(e.name).p = ROOT => RmTerm(B, <<e.s, Len(B.secs[e.s].t)>>) = A
       [] e.op \in {"gonterm", "setitem"} -> /\ SamePlaces(A, B, e.s)
                                             /\ First(B, e.name, e.v, <<B.secs[e.s].n>>) # <<>> \/ e.v = "N"
                                             /\ e.v = "N" \/ Step(B, EmptyFn, e).d = B                                        \* once is enough
       [] e.op \in {"newchild", "gonchild", "setprop", "setattr", "setvalue"} ->
            LET t == SGet(A.secs, e.pth)
                u == SGet(B.secs, e.pth)
            IN  /\ SPut(B.secs, e.pth, t) = A.secs                                                             \* only the term itself
                /\ e.op \in {"newchild", "gonchild"} => u.v = t.v /\ OthersKept(t, u, SplitName(e.name).r)
                /\ e.op = "newchild" => RmChild(B, Append(e.pth, Len(u.k))) = A
                /\ e.op \in {"setprop", "setattr"} =>
                     /\ e.v # "N" => SameVal(GetVal(u, e.name), e.v)                                               \* reads back
                     /\ e.v = "N" /\ ~IsOwn(t, e.name) => Cardinality({i \in 1..Len(u.k) : u.k[i].r = Lower(e.name)}) =
                                                          LET n == Cardinality({i \in 1..Len(t.k) : t.k[i].r = Lower(e.name)}) IN IF n = 0 THEN 0 ELSE n - 1
                     /\ OthersKept(t, u, e.name) /\ (~IsOwn(t, e.name) => u.v = t.v)
                     /\ e.v # "N" => Step(B, EmptyFn, e).d = B
                /\ e.op = "setvalue" => u = [t EXCEPT !.v = e.v]
       [] e.op = "rmterm" -> Tops(B.secs) @@ (Flat0(SGet(A.secs, e.pth)) :> 0) # Tops(A.secs) /\ SamePlaces(A, B, e.pth[1])
                             /\ Flat1(B.secs[e.pth[1]].t) = RemoveIdx(Flat1(A.secs[e.pth[1]].t), e.pth[2])
                             /\ Len(RankSeq(B.secs)) = Len(RankSeq(A.secs)) - 1
                             /\ RankSeq(B.secs) = RemoveIdx(RankSeq(A.secs), SGet(A.secs, e.pth).o)
       [] e.op = "rmchild" -> LET up == SubSeq(e.pth, 1, Len(e.pth) - 1) IN
                              /\ SPut(B.secs, up, SGet(A.secs, up)) = A.secs
                              /\ Len(SGet(B.secs, up).k) = Len(SGet(A.secs, up).k) - 1
       [] e.op = "delterms" -> /\ SamePlaces(A, B, e.s)
                               /\ \A t \in SetOf(B.secs[e.s].t) : ~TermIs(t.p, t.r, e.name)
                               /\ Flat1(B.secs[e.s].t) = SelectSeq(Flat1(A.secs[e.s].t), LAMBDA t : ~TermIs(t.p, t.r, e.name))
                               /\ SubOrder(RankSeq(B.secs), RankSeq(A.secs)) \/ Cardinality(SetOf(RankSeq(A.secs))) < Len(RankSeq(A.secs))
       [] e.op = "cleansec" -> B.secs[e.s].t = <<>> /\ SamePlaces(A, B, e.s)
       [] e.op = "sortterms" -> /\ \A i \in 1..Len(A.secs) : i # e.s => A.secs[i] = B.secs[i]
                                /\ Bag(B.secs[e.s].t) = Bag(A.secs[e.s].t)
                                /\ Step(B, EmptyFn, e).d = B
       [] e.op = "moveterm" -> /\ Tops(A.secs) = Tops(B.secs) /\ RankSeq(A.secs) = RankSeq(B.secs)
                               /\ e.pth[1] # e.s => B.secs[e.s].t[Len(B.secs[e.s].t)] = SGet(A.secs, e.pth)
       [] OTHER -> TRUE
StepAllowed == [][~IsIdent(Menu.ops[hist'[Len(hist')]]) => Allowed(D, Menu.ops[hist'[Len(hist')]], D')]_vars

(* ---- identity ---- *)
(* the value of the term of a name in Root that was added first *)
TopVal(X, r) ==
  LET q == SelectSeq(X.secs[RootIx(X)].t, LAMBDA t : t.r = r)
  IN  IF q = <<>> THEN "N" ELSE LET i == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i].o <= q[j].o IN q[i].v
(* the parts of a semantic version: the numbers of the first version term of Root, 0 where there is none *)
VerPart(t, r) == LET q == SelectSeq(t.k, LAMBDA c : c.r = r) IN IF q = <<>> \/ q[1].v = "N" THEN "0" ELSE PyStr(q[1].v)
SemText(t, patch) == VerPart(t, "major") \o "." \o VerPart(t, "minor") \o "." \o patch
                     \o (IF \E i \in 1..Len(t.k) : t.k[i].r = "build" THEN "." \o VerPart(t, "build") ELSE "")
IdentAllowed(A, e, B, msg) ==
  LET ida == IdPath(A)
      idb == IdPath(B)
      name(X) == FirstVal(X, "root.name", <<>>)
      parts(X) == {n \in SetOf(IdentityNames) : ~Falsy(FirstVal(X, n, InRoot)) /\ ~Blank(Txt(FirstVal(X, n, InRoot)))}
  IN  /\ ida # <<>> /\ ~Falsy(SGet(A.secs, ida).v) => SGet(B.secs, idb).v = SGet(A.secs, ida).v
      /\ e.op # "updver" => idb # <<>> /\ ~Falsy(SGet(B.secs, idb).v)
      /\ e.op = "updname" =>
           /\ (msg = <<"Changed Name">> /\ ~e.force) => name(A) # name(B)
           /\ msg # <<"Changed Name">> /\ msg # <<"Setting the name to the identifier">> => name(A) = name(B) \/ (name(A) = "N" /\ name(B) = "N")
           /\ ~Falsy(FirstVal(B, "root.dataset", InRoot)) /\ e.mod = ABSENT /\ msg # <<"No Root.Name, can't update name">> =>
                LET part(r) == LET v == TopVal(B, r) IN IF v \in {"N", "S", "I0"} \/ Blank(Txt(v)) THEN "" ELSE Slug(SubstCh(Txt(v), "-", "_"))
                    want == SelectSeq(<<part("origin"), part("dataset"), part("time"), part("space"), part("grain"), part("variant"), part("version")>>, LAMBDA x : x # "")
                IN  name(B) = "S" \o JoinStr(want, "-")
           /\ e.mod = ABSENT => LET w == UpdateName(B, "other", FALSE, e.create, FALSE, ABSENT)
                                IN  w.d = B /\ (w.m = <<>> \/ Falsy(FirstVal(B, "root.dataset", InRoot)) \/ name(B) = "N")
      /\ e.op = "updver" => /\ UpdateVersion(B).d = B
                            /\ VerPath(A) = <<>> => B = A
                            /\ HasSemver(A) => LET q == Split(Txt(SGet(B.secs, VerPath(B)).v), ".") IN Len(q) >= 3
IdentStepAllowed == [][IsIdent(Menu.ops[hist'[Len(hist')]]) => IdentAllowed(D, Menu.ops[hist'[Len(hist')]], D', m')]_vars
Mods == {"-", "N", "S+1", "S-1", "S-12", "S5", "S+"}
Inv17 == \A mod \in Mods : VersionFits(D, mod) =>
           LET g == GenName(D, mod)
               h == GenName(D, "N")
               has == VerPath(D) # <<>>
               t == SGet(D.secs, VerPath(D))
               cur == IF ~has THEN "N" ELSE IF HasSemver(D) THEN "S" \o VerPart(t, "patch") ELSE t.v
               k == IF mod \in {"S+1", "S+"} THEN 1 ELSE IF mod = "S-1" THEN 0 - 1 ELSE IF mod = "S-12" THEN 0 - 12 ELSE 0
               new == CASE mod = "S5" -> "S5" [] k # 0 /\ IsWhole(cur) -> "S" \o ToString(WholeOf(cur) + k) [] OTHER -> cur
               ver == IF new = "N" \/ ~has THEN "" ELSE IF HasSemver(D) THEN SemText(t, PyStr(new)) ELSE PyStr(new)
           IN  /\ (k # 0) => (g.x # "") = (cur = "N" \/ ~IsWhole(cur))
               /\ g.x = "" /\ mod # "N" => g.n = JoinStr(SelectSeq(<<h.n, IF Blank(ver) \/ new = "I0" THEN "" ELSE Slug(SubstCh(ver, "-", "_"))>>, LAMBDA x : x # ""), "-")
=============================================================================
