-------------------------------- MODULE MMask -------------------------------
(* The part of a document that each property is about, and what it means    *)
(* for two presentations of rows to be the same document.                   *)
EXTENDS MStep

ByRank(S) == LET q == RankPaths(S) IN [i \in 1..Len(q) |-> SGet(S, q[i])]
RanksOk(S) == LET q == RootPaths(S) IN {SGet(S, q[n]).o : n \in 1..Len(q)} = 1..Len(q)

NameVal(t) == <<t.p, t.r, t.v>>
RowTerms(S) == LET q == AllPaths(S) IN SelectSeq([i \in 1..Len(q) |-> SGet(S, q[i])], LAMBDA t : t.col \in {"1", "-"})
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]

M01(S) == [roots |-> LET q == ByRank(S) IN [i \in 1..Len(q) |-> NameVal(q[i])],
           rows  |-> LET q == RowTerms(S) IN Bag([i \in 1..Len(q) |-> NameVal(q[i])])]
RECURSIVE Tree02(_)
Tree02(t) == <<t.p, t.r, t.v, LET q == SelectSeq(t.k, LAMBDA c : c.col \in {"1", "-"}) IN [i \in 1..Len(q) |-> Tree02(q[i])]>>
M02(S) == LET q == ByRank(S) IN [i \in 1..Len(q) |-> Tree02(q[i])]
M03(S) == [i \in 1..Len(S) |-> <<S[i].n, S[i].a, [j \in 1..Len(S[i].t) |-> <<S[i].t[j].r, S[i].t[j].v>>]>>]
RECURSIVE Tree04(_)
Tree04(t) == <<t.r, t.v, t.tv, [i \in 1..Len(t.k) |-> Tree04(t.k[i])]>>
M04(S) == [i \in 1..Len(S) |-> <<S[i].a, S[i].h, S[i].dv, [j \in 1..Len(S[i].t) |-> Tree04(S[i].t[j])]>>]
RECURSIVE Tree07(_)
Tree07(t) == <<t.p, t.r, t.v, t.tv, t.cp, [i \in 1..Len(t.k) |-> Tree07(t.k[i])]>>
M07(S) == [i \in 1..Len(S) |-> <<S[i].n, S[i].a, S[i].h, S[i].dv, [j \in 1..Len(S[i].t) |-> Tree07(S[i].t[j])]>>]
RECURSIVE Tree25(_)
Tree25(t) == <<t.r, t.row, t.col, t.f, [i \in 1..Len(t.k) |-> Tree25(t.k[i])]>>
M25(S) == [i \in 1..Len(S) |-> [j \in 1..Len(S[i].t) |-> Tree25(S[i].t[j])]]
M23(S) == [i \in 1..Len(S) |-> [j \in 1..Len(S[i].t) |-> <<S[i].t[j].r, S[i].t[j].c>>]]

(* ---- presentation ---- *)
RECURSIVE Fold05(_)
Fold05(t) == <<t.p, t.r, t.v, Lower(t.tv), t.cp, [i \in 1..Len(t.k) |-> Fold05(t.k[i])]>>
LowAll(q) == [i \in 1..Len(q) |-> Lower(q[i])]
M05(S) == [i \in 1..Len(S) |-> <<Lower(S[i].n), LowAll(S[i].a), LowAll(S[i].h), S[i].dv, [j \in 1..Len(S[i].t) |-> Fold05(S[i].t[j])]>>]
(* rows that mean the same have the same normal form *)
RECURSIVE TrimBlank(_)
TrimBlank(q) == IF q = <<>> \/ (q[Len(q)] # "N" /\ ~Blank(Txt(q[Len(q)]))) THEN q ELSE TrimBlank(SubSeq(q, 1, Len(q) - 1))
NormRow(row) ==
  LET n == SplitName(Txt(row[1]))
      sp == n.p = ROOT /\ n.r \in {"section", "header"}
      c(i) == LET x == CellArg(row[i]) IN IF sp /\ x # "N" THEN Tag(x) \o Lower(Txt(x)) ELSE x
      q == [i \in 1..Len(row) |-> IF i = 1 THEN "S" \o n.p \o "." \o n.r ELSE c(i)]
  IN  IF sp THEN q ELSE TrimBlank(q)
NormRows(rows) == LET q == SelectSeq(rows, LAMBDA r : ~Skipped(r)) IN [i \in 1..Len(q) |-> NormRow(q[i])]
=============================================================================
