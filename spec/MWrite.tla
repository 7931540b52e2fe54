------------------------------- MODULE MWrite -------------------------------
(* A canonical writer: rows and lines for a document.  The library may lay  *)
(* out a document differently; this one shows that the formats can carry    *)
(* every document that Fits.                                                *)
EXTENDS MPack

RECURSIVE TermRows(_, _)
TermRows(t, top) ==
  <<<<"S" \o (IF top THEN t.r ELSE t.p \o "." \o t.r), "S" \o CellStr(t.v)>>>>
  \o Concat([i \in 1..Len(t.k) |-> TermRows(t.k[i], FALSE)])
SecRows(s) ==
  (IF s.n = "Root" THEN <<>> ELSE <<<<"SSection", "S" \o s.n>> \o [i \in 1..Len(PropNames(s)) |-> "S" \o PropNames(s)[i]]>>)
  \o Concat([j \in 1..Len(s.t) |-> TermRows(s.t[j], TRUE)])
CsvRows(D) ==
  LET q == SelectSeq(D.secs, LAMBDA s : s.n = "Root") \o SelectSeq(D.secs, LAMBDA s : s.n # "Root")
  IN  Concat([i \in 1..Len(q) |-> SecRows(q[i])])
RowLine(row) == Txt(row[1]) \o ": " \o JoinStr([i \in 1..(Len(row) - 1) |-> EscapePipe(Txt(row[i + 1]))], "|") \o "\n"
RECURSIVE JoinAll(_, _)
JoinAll(q, i) == IF i > Len(q) THEN "" ELSE q[i] \o JoinAll(q, i + 1)
LinesText(D) == LET q == CsvRows(D) IN JoinAll([i \in 1..Len(q) |-> RowLine(q[i])], 1)
=============================================================================
