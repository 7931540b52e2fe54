-------------------------------- MODULE MDict -------------------------------
(* Conversion to dictionaries.  A node is [k, s, d, l]: a scalar cell "s",  *)
(* a map "d" as a sequence of <<key, node>>, or a list "l"; "x" marks a     *)
(* joined value that is not text, which the specification says nothing      *)
(* about.  Nodes are compared as sets of "path=value" strings, so the order *)
(* of keys does not matter.                                                 *)
EXTENDS MFind

Scal(c) == [k |-> "s", s |-> c, d |-> <<>>, l |-> <<>>]
MapN(q) == [k |-> "d", s |-> "", d |-> q, l |-> <<>>]
ListN(q) == [k |-> "l", s |-> "", d |-> <<>>, l |-> q]
Poison == [k |-> "x", s |-> "", d |-> <<>>, l |-> <<>>]

DIdx(q, key) == FirstIdx(q, LAMBDA e : e[1] = key)
DPut(q, key, n) == LET i == DIdx(q, key) IN IF i = 0 THEN Append(q, <<key, n>>) ELSE [q EXCEPT ![i] = <<key, n>>]

JoinText(q, key, n, sep) ==
  LET i == DIdx(q, key) IN
  IF n.k # "s" \/ Tag(n.s) \notin {"S", "N", "I", "F"} \/ (i # 0 /\ (q[i][2].k # "s" \/ Tag(q[i][2].s) # "S")) THEN DPut(q, key, Poison)
  ELSE DPut(q, key, Scal("S" \o (IF i = 0 THEN "" ELSE Txt(q[i][2].s) \o sep) \o CellStr(n.s)))

AddKid(q, key, n, cp) ==
  LET i == DIdx(q, key) IN
  CASE cp = "scalar"   -> DPut(q, key, n)
    [] cp = "sequence" -> IF i # 0 /\ q[i][2].k = "l" THEN DPut(q, key, ListN(Append(q[i][2].l, n))) ELSE DPut(q, key, ListN(<<n>>))
    [] cp = "sconcat"  -> JoinText(q, key, n, " ")
    [] cp = "bconcat"  -> JoinText(q, key, n, "")
    [] OTHER -> IF i = 0 THEN DPut(q, key, n)
                ELSE IF q[i][2].k = "l" THEN DPut(q, key, ListN(Append(q[i][2].l, n)))
                ELSE IF q[i][2].k = "x" THEN q
                ELSE DPut(q, key, ListN(<<q[i][2], n>>))

RECURSIVE Conv(_, _)
ConvKids(kids, v, tv, rep) ==
  LET q == FoldLeft(LAMBDA a, c : AddKid(a, c.r, Conv(c, rep), c.cp), <<>>, kids)
  IN  MapN(IF Falsy(v) THEN q ELSE DPut(q, IF rep THEN Lower(tv) ELSE ATVAL, Scal(v)))
Conv(t, rep) == IF t.k = <<>> THEN Scal(t.v) ELSE ConvKids(t.k, t.v, t.tv, rep)

DropKey(n, key) == [n EXCEPT !.d = SelectSeq(@, LAMBDA e : e[1] # key)]
RootDict(terms, rep) ==
  IF terms = <<>> THEN MapN(<<>>)
  ELSE LET n == ConvKids(terms, "SRoot", ATVAL, rep) IN IF rep THEN DropKey(n, ATVAL) ELSE n
SecDict(s, rep) == IF Lower(s.n) = "root" THEN RootDict(s.t, rep)
                   ELSE IF s.t = <<>> THEN Scal("S" \o s.n) ELSE ConvKids(s.t, "S" \o s.n, ATVAL, rep)
DocDict(D, rep) == RootDict(Concat([i \in 1..Len(D.secs) |-> D.secs[i].t]), rep)

RECURSIVE Flat(_, _)
Flat(n, pre) ==
  CASE n.k = "s" -> {pre \o "=" \o n.s}
    [] n.k = "d" -> {pre \o "{}"} \cup UNION {Flat(n.d[i][2], pre \o "/" \o n.d[i][1]) : i \in 1..Len(n.d)}
    [] n.k = "l" -> {pre \o "[" \o ToString(Len(n.l)) \o "]"} \cup UNION {Flat(n.l[i], pre \o "/" \o ToString(i)) : i \in 1..Len(n.l)}
    [] OTHER -> {pre \o "?"}
RECURSIVE Poisoned(_)
Poisoned(n) == n.k = "x" \/ (\E i \in 1..Len(n.d) : Poisoned(n.d[i][2])) \/ (\E i \in 1..Len(n.l) : Poisoned(n.l[i]))
SetOf(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
