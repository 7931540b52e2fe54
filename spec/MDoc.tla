-------------------------------- MODULE MDoc --------------------------------
(* The abstract document.                                                   *)
(*   Term    [p, r    parent part and record part of the name, lower case   *)
(*            v       value, a cell                                         *)
(*            tv, cp  value name and property type for dictionaries         *)
(*            a       the cells after the value on the term's row           *)
(*            k       children, a sequence of terms                         *)
(*            row, col, f   position and file, as text                      *)
(*            o       rank among the document's top level terms, 0 for      *)
(*                    children (the order in which they were added)         *)
(*            c ]     class                                                 *)
(*   Section [n name, a columns, h header columns, dv header value name,    *)
(*            t top level terms, det: belongs to a declaration file]        *)
(*   Decl    [T declared terms, S declared sections -> columns, sup]        *)
(*   Doc     [secs sequence of sections, dc Decl]                           *)
EXTENDS MText

ROOT   == "root"
ELIDED == "<elided_term>"
ATVAL  == "@value"

Join(t)  == t.p \o "." \o t.r
PropNames(s) == IF s.h # <<>> THEN s.h ELSE s.a

RECURSIVE TGet(_, _)
TGet(t, pth) == IF pth = <<>> THEN t ELSE TGet(t.k[Head(pth)], Tail(pth))
RECURSIVE TPut(_, _, _)
TPut(t, pth, new) == IF pth = <<>> THEN new ELSE [t EXCEPT !.k[Head(pth)] = TPut(@, Tail(pth), new)]

(* paths into a sequence of sections: <<section, term, child, ...>> *)
SGet(S, pth)      == TGet(S[pth[1]].t[pth[2]], SubSeq(pth, 3, Len(pth)))
SPut(S, pth, new) == [S EXCEPT ![pth[1]].t[pth[2]] = TPut(@, SubSeq(pth, 3, Len(pth)), new)]
RECURSIVE TOk(_, _)
TOk(t, pth) == pth = <<>> \/ (Head(pth) \in 1..Len(t.k) /\ TOk(t.k[Head(pth)], Tail(pth)))
SOk(S, pth) == Len(pth) >= 2 /\ pth[1] \in 1..Len(S) /\ pth[2] \in 1..Len(S[pth[1]].t)
               /\ TOk(S[pth[1]].t[pth[2]], SubSeq(pth, 3, Len(pth)))

(* names: parent and record part of a written name *)
SplitName(s) ==
  LET q == Split(s, ".") IN
  IF Len(q) = 1 THEN [ok |-> TRUE, p |-> ROOT, r |-> Lower(Strip(s))]
  ELSE IF Len(q) # 2 THEN [ok |-> FALSE, p |-> "", r |-> ""]
  ELSE [ok |-> TRUE, p |-> IF Strip(q[1]) = "" THEN ELIDED ELSE Lower(Strip(q[1])), r |-> Lower(Strip(q[2]))]
Normal(s) == LET n == SplitName(s) IN n.p \o "." \o n.r

(* declarations *)
Dc0 == [tvn |-> "", cpt |-> "", sec |-> "", inh |-> "", syn |-> ""]
DeclOf(T, name) == IF name \in DOMAIN T THEN T[name] ELSE Dc0
Or(a, b) == IF a # "" THEN a ELSE b
EmptyFn == [x \in {} |-> x]
Put(f, key, val) == (key :> val) @@ f

InstallTerms ==
     "root.section"         :> [Dc0 EXCEPT !.tvn = "name"]
  @@ "root.synonym"         :> [Dc0 EXCEPT !.tvn = "term", !.cpt = "sequence"]
  @@ "root.declareterm"     :> [Dc0 EXCEPT !.tvn = "term", !.cpt = "sequence"]
  @@ "root.declaresection"  :> [Dc0 EXCEPT !.tvn = "section", !.cpt = "sequence"]
  @@ "root.declarevalueset" :> [Dc0 EXCEPT !.tvn = "name", !.cpt = "sequence"]
  @@ "declarevalueset.value" :> [Dc0 EXCEPT !.tvn = "value", !.cpt = "sequence"]
InstallSecs ==
     "root"             :> [a |-> <<>>, t |-> <<>>]
  @@ "declaredterms"    :> [a |-> <<>>, t |-> <<>>]
  @@ "declaredsections" :> [a |-> <<>>, t |-> <<>>]

NoDecl == [T |-> EmptyFn, S |-> EmptyFn, sup |-> EmptyFn]
NewSec(name, args, det) == [n |-> name, a |-> args, h |-> <<>>, dv |-> ATVAL, t |-> <<>>, det |-> det]
RootSec == NewSec("Root", <<>>, FALSE)
EmptyDoc == [secs |-> <<RootSec>>, dc |-> NoDecl]

SecIdx(S, name) == FirstIdx(S, LAMBDA s : ~s.det /\ Lower(s.n) = Lower(name))
DocTerms(S) == FoldLeft(LAMBDA n, s : IF s.det THEN n ELSE n + Len(s.t), 0, S)

(* all terms of a tree, preorder *)
RECURSIVE Pre(_)
Pre(t) == <<t>> \o Concat([i \in 1..Len(t.k) |-> Pre(t.k[i])])
RECURSIVE PrePaths(_, _)
PrePaths(t, pth) == <<pth>> \o Concat([i \in 1..Len(t.k) |-> PrePaths(t.k[i], Append(pth, i))])
RECURSIVE TermDepth(_)
TermDepth(t) == IF t.k = <<>> THEN 1
                ELSE 1 + FoldLeft(LAMBDA m, c : LET d == TermDepth(c) IN IF d > m THEN d ELSE m, 0, t.k)
RootPaths(S) == Concat([i \in 1..Len(S) |-> [j \in 1..Len(S[i].t) |-> <<i, j>>]])
AllPaths(S)  == Concat([n \in 1..Len(RootPaths(S)) |-> PrePaths(SGet(S, RootPaths(S)[n]), RootPaths(S)[n])])

(* class registry: qualified name -> class; sup: qualified name -> name it inherits from *)
ClassOf(reg, sup, name) ==
  IF name \in DOMAIN reg THEN reg[name]
  ELSE IF name \in DOMAIN sup /\ sup[name] \in DOMAIN reg THEN reg[sup[name]]
  ELSE "Term"
=============================================================================
