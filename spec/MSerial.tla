------------------------------- MODULE MSerial ------------------------------
(* Documents that CSV and Lines can carry, and when two documents are equal *)
(* for that purpose.                                                        *)
EXTENDS MIdent, MLines

Letters == UpSet \cup LoSet
NameSafe(r) == r # "" /\ Strip(r) = r /\ (\A i \in 1..Len(r) : Ch(r, i) \in Letters \cup DigSet \cup {"_", "-", " "})
               /\ (Ch(r, 1) \in Letters \/ IsDigits(r))
HasAny(s, cs) == \E i \in 1..Len(s) : Ch(s, i) \in cs
TextSafe(fmt, c) == LET s == CellStr(c) IN Strip(s) = s /\ ~HasAny(s, {"\r", "\f"}) /\ (fmt = "csv" \/ ~HasAny(s, {"\n"}))
TvWritten(D, t) == Or(DeclOf(D.dc.T, Join(t)).tvn, ATVAL)

RECURSIVE TermFits(_, _, _, _, _)
TermFits(D, fmt, pm, t, above) ==
  /\ NameSafe(t.r) /\ t.r \notin above /\ t.r # "section" /\ t.r # "root"
  /\ Remap(pm, t.r) = t.r
  /\ DeclOf(D.dc.T, Join(t)).syn = ""
  /\ TextSafe(fmt, t.v)
  /\ \A i \in 1..Len(t.k) : t.k[i].r # Lower(TvWritten(D, t)) /\ t.k[i].p = t.r
  /\ \A i \in 1..Len(t.k) : TermFits(D, fmt, pm, t.k[i], above \cup {t.r})
SecFits(D, fmt, s) ==
  /\ s.n # "" /\ Strip(s.n) = s.n /\ ~HasAny(s.n, {"\n", "\r", "\f"}) /\ (fmt = "csv" \/ Ch(s.n, Len(s.n)) # "\\")
  /\ \A i \in 1..Len(PropNames(s)) : PropNames(s)[i] = "" \/ NameSafe(PropNames(s)[i])
  /\ LET pm == IF s.n = "Root" THEN <<>> ELSE Munge(PropNames(s)) IN
     \A j \in 1..Len(s.t) : s.t[j].r \notin {"header", "include"} /\ s.t[j].p = ROOT /\ TermFits(D, fmt, pm, s.t[j], {})
Declares(D) == Concat([i \in 1..Len(D.secs) |-> SelectSeq(D.secs[i].t, LAMBDA t : t.r = "declare")])
Fits(D, fmt) ==
  /\ \A i \in 1..Len(D.secs) : SecFits(D, fmt, D.secs[i])
  /\ RootIx(D) # 0 /\ \E i \in 1..Len(D.secs) : D.secs[i].n = "Root"
  /\ LET n == Len(Declares(D)) IN
     \/ n = 0 /\ DOMAIN D.dc.T \subseteq DOMAIN InstallTerms
     \/ n = 1 /\ LET r == D.secs[RootIx(D)].t IN r # <<>> /\ r[1].r = "declare" /\ r[1].k = <<>> /\ ~Falsy(r[1].v)
(* value names and property types can be compared too *)
Typeful(D) == \A pth \in SetOf(AllPaths(D.secs)) : LET t == SGet(D.secs, pth) IN t.tv = TvWritten(D, t)

RECURSIVE Hollow(_)
Hollow(t) == CellStr(t.v) = "" /\ \A i \in 1..Len(t.k) : Hollow(t.k[i])
RECURSIVE NTree(_, _)
NTree(t, typed) ==
  LET kids == SelectSeq(t.k, LAMBDA c : ~Hollow(c)) IN
  <<t.r, CellStr(t.v), IF typed THEN <<t.tv, t.cp>> ELSE <<>>,
    {<<r, LET q == SelectSeq(kids, LAMBDA c : c.r = r) IN [i \in 1..Len(q) |-> NTree(q[i], typed)]>> : r \in {kids[i].r : i \in 1..Len(kids)}}>>
NSec(s, typed) == <<s.n, IF s.n = "Root" THEN <<>> ELSE TrimTail(PropNames(s)), [j \in 1..Len(s.t) |-> NTree(s.t[j], typed)]>>
NDoc(D, typed) ==
  LET q == SelectSeq(D.secs, LAMBDA s : s.n = "Root") \o SelectSeq(D.secs, LAMBDA s : s.n # "Root")
  IN  [i \in 1..Len(q) |-> NSec(q[i], typed)]
Equiv(A, B, typed) == NDoc(A, typed) = NDoc(B, typed)
=============================================================================
