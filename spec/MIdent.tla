------------------------------- MODULE MIdent -------------------------------
(* Identifier, version and name of a document.                              *)
EXTENDS MEdit

RootIx(D) == SecIdx(D.secs, "root")
InRoot == <<"Root">>
IdPath(D) == First(D, "root.identifier", ABSENT, InRoot)

EnsureId(D, uid) ==
  LET D1 == IF IdPath(D) = <<>> THEN NewTerm(D, EmptyFn, RootIx(D), "Root.Identifier", "N", <<>>) ELSE D
      p == IdPath(D1)
  IN  IF Falsy(SGet(D1.secs, p).v) THEN SetValue(D1, p, "S" \o uid) ELSE D1

VerPath(D) == First(D, "root.version", ABSENT, InRoot)
KidOf(t, r) == LET i == KidIdx(t, r) IN IF i = 0 THEN [v |-> ABSENT] ELSE [v |-> t.k[i].v]
HasSemver(D) == VerPath(D) # <<>> /\ \E r \in {"major", "minor", "patch"} : KidIdx(SGet(D.secs, VerPath(D)), r) # 0

(* the version of the document: the document with its version brought up to date, and the value *)
UpdateVersion(D) ==
  LET p == VerPath(D) IN
  IF p = <<>> THEN [d |-> D, v |-> "N"]
  ELSE IF ~HasSemver(D) THEN [d |-> D, v |-> SGet(D.secs, p).v]
  ELSE LET part(t, r) == LET i == KidIdx(t, r) IN
                         IF i = 0 THEN [t EXCEPT !.k = Append(@, NewKid(D, t.r, r, "S0", "Term"))]
                         ELSE IF t.k[i].v = "N" THEN [t EXCEPT !.k[i].v = "I0"] ELSE t
           t1 == part(part(part(SGet(D.secs, p), "major"), "minor"), "patch")
           b  == KidOf(t1, "build").v
           v  == "S" \o PyStr(KidOf(t1, "major").v) \o "." \o PyStr(KidOf(t1, "minor").v) \o "." \o PyStr(KidOf(t1, "patch").v)
                 \o (IF b = ABSENT THEN "" ELSE "." \o PyStr(b))
       IN  [d |-> SetAt(D, p, [t1 EXCEPT !.v = v]), v |-> v]

IsWhole(c) == (Tag(c) = "S" /\ IsInt(Txt(c))) \/ Tag(c) = "I" \/ (Tag(c) = "F" /\ LET q == Split(Txt(c), ".") IN Len(q) = 2 /\ q[2] = "0")
WholeOf(c) == IF Tag(c) = "F" THEN IntOf(Split(Txt(c), ".")[1]) ELSE IntOf(Txt(c))

IdentityNames == <<"root.origin", "root.dataset", "root.time", "root.space", "root.grain", "root.variant">>
Part(c) == IF Falsy(c) \/ Blank(Txt(c)) THEN <<>> ELSE <<Slug(SubstCh(Txt(c), "-", "_"))>>

(* mod: "-" keep the version, "N" leave it out, "S+n" / "S-n" arithmetic, other cells replace it *)
GenName(D0, mod) ==
  LET u == UpdateVersion(D0)
      D == u.d
      q == IF HasSemver(D) THEN "version.patch" ELSE "root.version"
      mv == FirstVal(D, q, InRoot)
      math == Tag(mod) = "S" /\ mod # "S" /\ Ch(mod, 2) \in {"+", "-"}
      k == IF Len(mod) = 2 THEN 1 ELSE NatOf(Drop(mod, 2))
      new == IF mod = ABSENT THEN mv ELSE IF mod = "N" THEN "N"
             ELSE IF math THEN "S" \o ToString(IF Ch(mod, 2) = "+" THEN WholeOf(mv) + k ELSE WholeOf(mv) - k)
             ELSE mod
      D1 == IF new = "N" THEN D ELSE SetValue(D, First(D, q, ABSENT, InRoot), new)
      u1 == IF new = "N" THEN [d |-> D, v |-> "N"] ELSE UpdateVersion(D1)
      parts == Concat([i \in 1..6 |-> Part(FirstVal(D0, IdentityNames[i], InRoot))] \o <<Part(u1.v)>>)
  IN  IF math /\ (mv = "N" \/ ~IsWhole(mv)) THEN [x |-> "MetatabError", d |-> D, n |-> ""]
      ELSE [x |-> "", d |-> u1.d, n |-> JoinStr(parts, "-")]
IdentClear(D) == \A n \in SetOf(IdentityNames \o <<"root.name", "root.identifier", "root.version", "version.patch">>) : ~Unclear(D, n)
(* replacing the version of a document that has none is outside the specification *)
VersionFits(D, mod) == mod \in {ABSENT, "N"} \/ VerPath(D) # <<>> \/ (Tag(mod) = "S" /\ mod # "S" /\ Ch(mod, 2) \in {"+", "-"})

UpdateName(D0, uid, force, create, report, mod) ==
  LET D1 == EnsureId(D0, uid)
      has == First(D1, "root.name", ABSENT, <<>>) # <<>>
      D2 == IF has \/ ~create THEN D1 ELSE NewTerm(D1, EmptyFn, RootIx(D1), "Root.Name", "S", <<>>)
      p == First(D2, "root.name", ABSENT, <<>>)
      orig == IF p = <<>> THEN "N" ELSE SGet(D2.secs, p).v
      id == FirstVal(D2, "root.identifier", <<>>)
      ds == FirstVal(D2, "root.dataset", InRoot)
      g  == GenName(D2, mod)
      out(d, m) == [x |-> "", d |-> d, m |-> m]
  IN  IF p = <<>> THEN out(D1, <<"No Root.Name, can't update name">>)
      ELSE IF ~Falsy(ds) THEN
        IF g.x # "" THEN [x |-> g.x, d |-> g.d, m |-> <<>>]
        ELSE IF "S" \o g.n # orig \/ force THEN out(SetValue(g.d, p, "S" \o g.n), <<"Changed Name">>)
        ELSE out(g.d, IF report THEN <<"Name did not change">> ELSE <<>>)
      ELSE IF Falsy(orig) THEN
        IF Falsy(id) THEN out(D2, <<"Failed to find DatasetName term or Identity term. Giving up">>)
        ELSE out(SetValue(D2, p, id), <<"Setting the name to the identifier">>)
      ELSE IF orig = id THEN out(D2, IF report THEN <<"Name did not change">> ELSE <<>>)
      ELSE out(D2, <<"No Root.Dataset, so can't update the name">>)

Cleanse(D, uid) == UpdateName(EnsureId(D, uid), uid, FALSE, FALSE, TRUE, ABSENT).d
=============================================================================
