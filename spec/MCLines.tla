------------------------------- MODULE MCLines ------------------------------
(* Bounded model of the Lines format: every text over an alphabet up to a   *)
(* length, built one character at a time.                                   *)
EXTENDS MLines, Json, IOUtils

Menu   == JsonDeserialize(IOEnv.VMENU)       \* [chars: the alphabet, pre: texts to start from]
MaxLen == NatOf(IOEnv.VLEN)

VARIABLES pre, s
vars == <<pre, s>>
Init == pre \in {Menu.pre[i] : i \in 1..Len(Menu.pre)} /\ s = ""
Next == /\ Len(s) < MaxLen
        /\ \E i \in 1..Len(Menu.chars) : s' = s \o Menu.chars[i]
        /\ pre' = pre
        /\ PrintT("HIST " \o ToJson(pre \o s'))
Spec == Init /\ [][Next]_vars

T == pre \o s
OneLine == \A i \in 1..Len(T) : Ch(T, i) \notin {"\n", "\r", "\f"}
Colon == FirstIdx(IdxSeq(Len(T)), LAMBDA i : Ch(T, i) = ":")
Bars == {i \in 1..Len(T) : Ch(T, i) = "|" /\ (i = 1 \/ Ch(T, i - 1) # "\\")}

(* number of rows: one per line that is not a comment *)
InvRows == LET L == TextLines(T) IN
  /\ Len(Tokens(T)) = Cardinality({i \in 1..Len(L) : ~(Strip(L[i]) # "" /\ Ch(Strip(L[i]), 1) = "#")})
  /\ OneLine /\ T # "" => L = <<T>>
(* cells of one line *)
InvCells == OneLine /\ T # "" /\ Tokens(T) # <<>> /\ CountEq(T, 1) < 4 =>
  LET q == Tokens(T)[1] IN
  IF Colon = 0 THEN q = <<Strip(T)>>
  ELSE /\ q[1] = Strip(Take(T, Colon - 1))
       /\ Len(q) = 2 + Cardinality({i \in Bars : i > Colon})
       /\ ~HasCh(T, "\\") => JoinStr(Tail(q), "|") = Strip(Drop(T, Colon))
(* sections *)
InvSec == OneLine /\ CountEq(T, 1) >= 4 => LET q == Tokens(T)[1] IN q[1] = "Section" /\ Len(q) >= 2
(* a name and cells that are written are read: the cells have no line break, are trimmed at the ends of the row *)
InvWrite == OneLine /\ Strip(T) = T /\ T # "" /\ Ch(T, Len(T)) # "\\" =>
  Tokens("n: " \o EscapePipe(T) \o "|" \o EscapePipe(T)) = <<<<"n", T, T>>>>
=============================================================================
