------------------------------- MODULE MLines -------------------------------
(* The Lines format: text to rows of cells.                                 *)
EXTENDS MText

RECURSIVE LineFrom(_, _, _)
LineFrom(s, i, j) ==       \* lines of s from i, with j scanning; a break is \n, \r or \r\n
  IF j > Len(s) THEN (IF i > Len(s) THEN <<>> ELSE <<SubSeq(s, i, Len(s))>>)
  ELSE IF Ch(s, j) = "\r" /\ j < Len(s) /\ Ch(s, j + 1) = "\n" THEN <<SubSeq(s, i, j - 1)>> \o LineFrom(s, j + 2, j + 2)
  ELSE IF Ch(s, j) \in {"\n", "\r", "\f"} THEN <<SubSeq(s, i, j - 1)>> \o LineFrom(s, j + 1, j + 1)
  ELSE LineFrom(s, i, j + 1)
TextLines(s) == LineFrom(s, 1, 1)

RECURSIVE CountEq(_, _)
CountEq(s, i) == IF i > Len(s) \/ Ch(s, i) # "=" THEN i - 1 ELSE CountEq(s, i + 1)

(* split at pipes that do not follow a backslash; then \| stands for | *)
RECURSIVE PipeFrom(_, _, _)
PipeFrom(s, i, j) ==
  IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
  ELSE IF Ch(s, j) = "|" /\ (j = 1 \/ Ch(s, j - 1) # "\\") THEN <<SubSeq(s, i, j - 1)>> \o PipeFrom(s, j + 1, j + 1)
  ELSE PipeFrom(s, i, j + 1)
RECURSIVE Unescape(_, _)
Unescape(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "\\" /\ i < Len(s) /\ Ch(s, i + 1) = "|" THEN "|" \o Unescape(s, i + 2)
  ELSE Ch(s, i) \o Unescape(s, i + 1)

LineRow(line0) ==
  LET n == CountEq(line0, 1)
      line == IF n >= 4 THEN "Section:" \o Drop(line0, n) ELSE line0
      c == Find1(line, ":")
  IN  IF c = 0 THEN <<Strip(line)>>
      ELSE <<Strip(Take(line, c - 1))>> \o LET q == PipeFrom(Strip(Drop(line, c)), 1, 1) IN [i \in 1..Len(q) |-> Unescape(q[i], 1)]

IsComment(line) == LET a == SkipL(line, 1) IN a <= Len(line) /\ Ch(line, a) = "#"
Tokens(text) == LET q == SelectSeq(TextLines(text), LAMBDA s : ~IsComment(s)) IN [i \in 1..Len(q) |-> LineRow(q[i])]
TextRows(text) == LET q == Tokens(text) IN [i \in 1..Len(q) |-> [j \in 1..Len(q[i]) |-> "S" \o q[i][j]]]

(* writing: a pipe inside a value is escaped *)
EscapePipe(s) == SubstCh(s, "|", "\\|")
=============================================================================
