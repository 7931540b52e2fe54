------------------------------- MODULE MFind --------------------------------
(* Searching.  Results are paths: <<s, t, c, ...>> a term, <<s>> a section. *)
EXTENDS MDoc

ABSENT == "-"         \* no value given: not a cell, so it differs from every value

TermIs(p, r, v0) ==
  LET v == Lower(IF HasCh(v0, ".") THEN v0 ELSE "root." \o v0)
      n == SplitName(v)
  IN  \/ p \o "." \o r = v
      \/ n.r = "*" /\ n.p = p
      \/ n.p = "*" /\ n.r \in {r, "*"}

Qual(name) == IF HasCh(name, ".") THEN Lower(name) ELSE "root." \o Lower(name)

(* top level terms in the order they were added *)
RankPaths(S) == LET q == RootPaths(S)
                IN  [i \in 1..Len(q) |-> q[CHOOSE n \in 1..Len(q) : SGet(S, q[n]).o = i]]
(* every term in document order, with the sections other than Root *)
DocPaths(S) == Concat([i \in 1..Len(S) |->
                 (IF S[i].n = "Root" THEN <<>> ELSE <<<<i>>>>)
                 \o Concat([j \in 1..Len(S[i].t) |-> PrePaths(S[i].t[j], <<i, j>>)])])

NameAt(S, pth) == IF Len(pth) = 1 THEN [p |-> ROOT, r |-> "section"] ELSE LET t == SGet(S, pth) IN [p |-> t.p, r |-> t.r]
ValAt(S, pth)  == IF Len(pth) = 1 THEN "S" \o S[pth[1]].n ELSE SGet(S, pth).v

KidIdx(t, name) == FirstIdx(t.k, LAMBDA c : c.r = Lower(name))
IsOwn(t, name) == Lower(name) \in {Lower(t.tv), "value"}
GetVal(t, name) == IF IsOwn(t, name) THEN t.v ELSE LET i == KidIdx(t, name) IN IF i = 0 THEN "N" ELSE t.k[i].v

(* numbers are compared as numbers: 0 = 0.0 *)
NumKey(v) == IF StartsWith(v, "F") /\ Len(v) > 3 /\ SubSeq(v, Len(v) - 1, Len(v)) = ".0" THEN "I" \o SubSeq(v, 2, Len(v) - 2) ELSE v
SameVal(a, b) == NumKey(a) = NumKey(b)

Hit(S, pth, name, val, secs, props) ==
  /\ TermIs(NameAt(S, pth).p, NameAt(S, pth).r, name)
  /\ secs = <<>> \/ (Len(pth) > 1 /\ \E i \in 1..Len(secs) : Lower(secs[i]) = Lower(S[pth[1]].n))
  /\ val = ABSENT \/ SameVal(ValAt(S, pth), val)
  /\ props = <<>> \/ (Len(pth) > 1 /\ \A i \in 1..Len(props) : SameVal(GetVal(SGet(S, pth), props[i][1]), props[i][2]))

Scan(S, name) == IF StartsWith(Qual(name), "root.") THEN RankPaths(S) ELSE DocPaths(S)
FindOne(S, name, val, secs, props) == SelectSeq(Scan(S, name), LAMBDA pth : Hit(S, pth, name, val, secs, props))
DerivedOf(sup, name) == {k \in DOMAIN sup : sup[k] = Qual(name)}
(* what a search for one name gives: the matches of each derived name, in any order of the names, then its own *)
Segment(D, name, val, secs, props) ==
  [der |-> {FindOne(D.secs, k, val, secs, props) : k \in DerivedOf(D.dc.sup, name)},
   n   |-> LET f[K \in SUBSET DerivedOf(D.dc.sup, name)] ==
                 IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN Len(FindOne(D.secs, k, val, secs, props)) + f[K \ {k}]
           IN  f[DerivedOf(D.dc.sup, name)],
   own |-> FindOne(D.secs, name, val, secs, props)]
SegFits(seg, got) ==        \* got is a possible order of this segment
  LET d == SubSeq(got, 1, seg.n) IN
  /\ Len(got) = seg.n + Len(seg.own)
  /\ SubSeq(got, seg.n + 1, Len(got)) = seg.own
  /\ \A q \in seg.der : \A i \in 1..Len(q) : Cardinality({j \in 1..seg.n : d[j] = q[i]}) = 1
  /\ \A q \in seg.der : SelectSeq(d, LAMBDA e : \E i \in 1..Len(q) : q[i] = e) = q
RECURSIVE FindFits(_, _, _, _, _, _)
FindFits(D, names, val, secs, props, got) ==
  IF names = <<>> THEN got = <<>>
  ELSE LET seg == Segment(D, Head(names), val, secs, props)
           n == seg.n + Len(seg.own)
       IN  Len(got) >= n /\ SegFits(seg, SubSeq(got, 1, n)) /\ FindFits(D, Tail(names), val, secs, props, SubSeq(got, n + 1, Len(got)))
(* possible first results; empty: there is none *)
RECURSIVE Firsts(_, _, _, _, _)
Firsts(D, names, val, secs, props) ==
  IF names = <<>> THEN {}
  ELSE LET seg == Segment(D, Head(names), val, secs, props)
           dd == {Head(q) : q \in {q \in seg.der : q # <<>>}}
       IN  IF dd # {} THEN dd ELSE IF seg.own # <<>> THEN {Head(seg.own)} ELSE Firsts(D, Tail(names), val, secs, props)

(* first match by name in a section; <<>> if none.  It is one of several only when two or more declared names       *)
(* inherit from this one and occur: see Unclear.                                                                       *)
First(D, name, val, sec) == LET f == Firsts(D, <<name>>, val, sec, <<>>) IN IF f = {} THEN <<>> ELSE CHOOSE p \in f : TRUE
FirstVal(D, name, sec) == LET p == First(D, name, ABSENT, sec) IN IF p = <<>> THEN "N" ELSE ValAt(D.secs, p)
Unclear(D, name) == Cardinality(Firsts(D, <<name>>, ABSENT, <<>>, <<>>)) > 1
=============================================================================
