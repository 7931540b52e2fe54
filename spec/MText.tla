------------------------------- MODULE MText -------------------------------
(* Text as Metatab uses it: letter case, trimming, splitting, slugs, whole  *)
(* numbers.  Letter case is modelled for ASCII and é ñ ü; others are kept.  *)
(* A "cell" is a tagged string: "S..." text, "I..." integer, "F..." float,  *)
(* "N" for no value at all.                                                 *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Ch(s, i)   == SubSeq(s, i, i)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

UpperAZ == "ABCDEFGHIJKLMNOPQRSTUVWXYZÉÑÜ"
LowerAZ == "abcdefghijklmnopqrstuvwxyzéñü"
Digits  == "0123456789"

CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
UpSet  == CharSet(UpperAZ)
LoSet  == CharSet(LowerAZ)
DigSet == CharSet(Digits)
ToLo == [c \in UpSet |-> Ch(LowerAZ, CHOOSE i \in 1..Len(UpperAZ) : Ch(UpperAZ, i) = c)]
ToUp == [c \in LoSet |-> Ch(UpperAZ, CHOOSE i \in 1..Len(UpperAZ) : Ch(LowerAZ, i) = c)]
DigVal == [c \in DigSet |-> (CHOOSE i \in 1..10 : Ch(Digits, i) = c) - 1]
WS == {" ", "\t", "\n", "\r", "\f", " "}

LowCh(c) == IF c \in UpSet THEN ToLo[c] ELSE c
UpCh(c)  == IF c \in LoSet THEN ToUp[c] ELSE c

RECURSIVE LowFrom(_, _)
LowFrom(s, i) == IF i > Len(s) THEN "" ELSE LowCh(Ch(s, i)) \o LowFrom(s, i + 1)
Lower(s) == LowFrom(s, 1)

(* Title case as Python does it: a letter is upper case exactly after a non letter *)
RECURSIVE TitleFrom(_, _, _)
TitleFrom(s, i, prev) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
           letter == c \in UpSet \cup LoSet
       IN  (IF ~letter THEN c ELSE IF prev THEN LowCh(c) ELSE UpCh(c)) \o TitleFrom(s, i + 1, letter)
Title(s) == TitleFrom(s, 1, FALSE)

RECURSIVE SkipL(_, _)
SkipL(s, i) == IF i > Len(s) \/ Ch(s, i) \notin WS THEN i ELSE SkipL(s, i + 1)
RECURSIVE SkipR(_, _)
SkipR(s, i) == IF i < 1 \/ Ch(s, i) \notin WS THEN i ELSE SkipR(s, i - 1)
Strip(s) == LET a == SkipL(s, 1) IN IF a > Len(s) THEN "" ELSE SubSeq(s, a, SkipR(s, Len(s)))

Blank(s) == SkipL(s, 1) > Len(s)
StartsWith(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre

(* first position of character c in s at or after i, 0 if there is none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
Find1(s, c) == FindFrom(s, c, 1)
HasCh(s, c) == Find1(s, c) # 0
RECURSIVE FindLast(_, _, _)
FindLast(s, c, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindLast(s, c, i - 1)

RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, c, i) ==
  LET j == FindFrom(s, c, i)
  IN  IF j = 0 THEN <<SubSeq(s, i, Len(s))>> ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom(s, c, j + 1)
Split(s, c) == SplitFrom(s, c, 1)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, i) == IF i > Len(q) THEN "" ELSE IF i = Len(q) THEN q[i] ELSE q[i] \o sep \o JoinFrom(q, sep, i + 1)
JoinStr(q, sep) == JoinFrom(q, sep, 1)

RECURSIVE SubstFrom(_, _, _, _)
SubstFrom(s, c, by, i) ==
  IF i > Len(s) THEN "" ELSE (IF Ch(s, i) = c THEN by ELSE Ch(s, i)) \o SubstFrom(s, c, by, i + 1)
SubstCh(s, c, by) == SubstFrom(s, c, by, 1)

(* whole numbers *)
IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DigSet
RECURSIVE NatFrom(_, _, _)
NatFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NatFrom(s, i + 1, acc * 10 + DigVal[Ch(s, i)])
NatOf(s) == NatFrom(s, 1, 0)
IsInt(s) == IsDigits(s) \/ (Len(s) > 1 /\ Ch(s, 1) \in {"-", "+"} /\ IsDigits(Drop(s, 1)))
IntOf(s) == IF Ch(s, 1) = "-" THEN 0 - NatOf(Drop(s, 1)) ELSE IF Ch(s, 1) = "+" THEN NatOf(Drop(s, 1)) ELSE NatOf(s)

(* cells *)
Tag(c)     == Ch(c, 1)
Txt(c)     == Drop(c, 1)
CellStr(c) == IF c = "N" THEN "" ELSE Txt(c)         \* the text that CSV and Lines carry
PyStr(c)   == IF c = "N" THEN "None" ELSE Txt(c)
Falsy(c)   == c \in {"N", "S", "I0", "F0.0"}
CellVal(c) == IF Falsy(c) THEN "N" ELSE IF Tag(c) = "S" THEN "S" \o Strip(Txt(c)) ELSE c
CellArg(c) == IF Tag(c) = "S" THEN "S" \o Strip(Txt(c)) ELSE c

(* slugs, as used in names: lower case, word characters, dots and single hyphens *)
Accented == [x \in {"é", "è", "ü", "ñ", "ç", "à", "ö", "É", "Ñ", "Ü"} |->
               CASE x = "É" -> "E" [] x = "Ñ" -> "N" [] x = "Ü" -> "U" [] x = "é" -> "e" [] x = "è" -> "e" [] x = "ü" -> "u" [] x = "ñ" -> "n"
                 [] x = "ç" -> "c" [] x = "à" -> "a" [] OTHER -> "o"]
SlugKeep == LoSet \cup DigSet \cup {"_", ".", "-"} \cup WS
RECURSIVE AsciiFrom(_, _)
AsciiFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
           d == IF c \in DOMAIN Accented THEN Accented[c] ELSE c
       IN  (IF d \in CharSet(" !\"#$%&'()*+,-./0123456789:;<=>?@[\\]^_`{|}~") \cup UpSet \cup LoSet \cup WS THEN d ELSE "")
           \o AsciiFrom(s, i + 1)
RECURSIVE KeepFrom(_, _)
KeepFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in SlugKeep THEN Ch(s, i) ELSE "") \o KeepFrom(s, i + 1)
RECURSIVE HyphFrom(_, _, _)
HyphFrom(s, i, inrun) ==
  IF i > Len(s) THEN ""
  ELSE LET c == Ch(s, i)
           sep == c = "-" \/ c \in WS
       IN  IF sep THEN (IF inrun THEN "" ELSE "-") \o HyphFrom(s, i + 1, TRUE)
           ELSE c \o HyphFrom(s, i + 1, FALSE)
Slug(s) == HyphFrom(KeepFrom(Lower(Strip(AsciiFrom(s, 1))), 1), 1, FALSE)

(* sequences *)
IdxSeq(n) == [i \in 1..n |-> i]
Concat(qq) == FoldLeft(LAMBDA a, q : a \o q, <<>>, qq)
RemoveIdx(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
LastIdx(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstIdx(q, P(_)) == LET I == {i \in 1..Len(q) : P(q[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
RECURSIVE TrimTail(_)
TrimTail(q) == IF q = <<>> THEN q ELSE IF q[Len(q)] = "" THEN TrimTail(SubSeq(q, 1, Len(q) - 1)) ELSE q
=============================================================================
