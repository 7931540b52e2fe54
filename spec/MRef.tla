-------------------------------- MODULE MRef --------------------------------
(* The names that a file of a document goes by.  A reference is a path or a *)
(* URL; "$" stands for the absolute path of the directory in which the      *)
(* program runs, and the files are named relative to it.  A file in a zip   *)
(* file is named like a file in a directory.                                *)
EXTENDS MMask

METADATA == "metadata.csv"
Cut(s, pre) == IF StartsWith(s, pre) THEN Drop(s, Len(pre)) ELSE s
EndsIn(s, t) == Len(s) >= Len(t) /\ Drop(s, Len(s) - Len(t)) = t
IsMeta(ref) == StartsWith(ref, "metatab+")
RefFrag(ref) == IF HasCh(ref, "#") THEN Drop(ref, Find1(ref, "#")) ELSE ""
(* the path in the reference, relative to "$" *)
RefPath(ref) == LET u == Cut(Cut(Cut(ref, "metatab+"), "file:"), "//")
                    p == IF HasCh(u, "#") THEN Take(u, Find1(u, "#") - 1) ELSE u
                IN  Cut(p, "$/")
RefParts(ref) == NormParts(<<>>, Split(RefPath(ref), "/"))
(* what follows the last period of a file's name is a kind of file; a directory's name may have periods too *)
FileExts == {"csv", "txt", "zip", "xlsx", "ipynb"}
Ext(name) == LET i == FindLast(name, ".", Len(name)) IN IF i = 0 THEN "" ELSE Drop(name, i)

Dirs(names) == UNION {LET q == Split(n, "/") IN {JoinStr(SubSeq(q, 1, k), "/") : k \in 1..(Len(q) - 1)} : n \in names}
Zipped(names, zip) == {n \in names : StartsWith(n, zip \o "/")}
(* the file that a reference names; "" if there is none *)
RefFile(ref, names) ==
  LET q == RefParts(ref)
      p == JoinStr(q, "/")
      e == IF q = <<>> THEN "" ELSE Ext(q[Len(q)])
      z == Zipped(names, p)
      cand == {n \in z : IF RefFrag(ref) # "" THEN n = p \o "/" \o RefFrag(ref) ELSE ~IsMeta(ref) \/ BaseName(n) = METADATA}
      f == IF IsMeta(ref) /\ e \notin FileExts THEN (IF p = "" THEN METADATA ELSE p \o "/" \o METADATA) ELSE p
  IN  IF e = "zip" THEN (IF cand = {} THEN "" ELSE CHOOSE n \in cand : TRUE)
      ELSE IF f \in names THEN f ELSE ""

InZip(f) == LET q == Split(f, "/") IN \E i \in 1..(Len(q) - 1) : EndsIn(q[i], ".zip")
(* the references the specification speaks of: those of plain files by their csv name, of line files and     *)
(* directories as metatab URLs, and of zip files in which only one file can be meant; and steps upward only  *)
(* out of directories that are there                                                                         *)
RECURSIVE StepsOk(_, _, _)
StepsOk(acc, q, dirs) ==
  IF q = <<>> THEN TRUE
  ELSE IF Head(q) = ".." THEN acc # <<>> /\ JoinStr(acc, "/") \in dirs /\ StepsOk(SubSeq(acc, 1, Len(acc) - 1), Tail(q), dirs)
  ELSE StepsOk(IF Head(q) \in {"", "."} THEN acc ELSE Append(acc, Head(q)), Tail(q), dirs)
RefClear(ref, names) ==
  LET q == RefParts(ref)
      e == IF q = <<>> THEN "" ELSE Ext(q[Len(q)])
      p == JoinStr(q, "/")
      u == RefPath(ref)
      after == Cut(Cut(ref, "metatab+"), "file:")
  IN  /\ StartsWith(after, "/") => StartsWith(after, "//$/")
      /\ ~StartsWith(u, "/") /\ ~InZip(p)
      /\ HasCh(u, ".") => LET dirs == Dirs({n \in names : ~InZip(n)}) IN StepsOk(<<>>, Split(u, "/"), dirs)
      /\ e \in FileExts => ~EndsIn(u, "/") /\ ~EndsIn(u, "/.") /\ ~EndsIn(u, "/..")
      /\ CASE e = "csv" -> RefFrag(ref) = ""
           [] e = "zip" -> /\ Cardinality({n \in Zipped(names, p) : IsMeta(ref) => BaseName(n) = METADATA}) <= 1 \/ RefFrag(ref) # ""
                           /\ IsMeta(ref) => RefFrag(ref) = ""
           [] e = "txt" -> IsMeta(ref) /\ RefFrag(ref) = ""
           [] OTHER -> e \notin FileExts /\ IsMeta(ref) /\ RefFrag(ref) = "" /\ q # <<>>
DirName(f) == JoinStr(DirParts(f), "/")
=============================================================================
