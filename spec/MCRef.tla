-------------------------------- MODULE MCRef -------------------------------
(* Bounded model of references: every reference made of a beginning and up  *)
(* to MAXLEN steps of the menu.                                             *)
EXTENDS MRef, Json, IOUtils

Menu  == JsonDeserialize(IOEnv.VMENU)        \* [heads, steps: strings; names: of the files there are]
NAMES == {Menu.names[i] : i \in 1..Len(Menu.names)}
MAXLEN == NatOf(IOEnv.VLEN)

VARIABLES head, segs
vars == <<head, segs>>
Init == head \in 1..Len(Menu.heads) /\ segs = <<>>
PathOf(q) == JoinStr([i \in 1..Len(q) |-> Menu.steps[q[i]]], "/")
Path == PathOf(segs)
Ref  == Menu.heads[head] \o Path
Clear == segs # <<>> /\ RefClear(Ref, NAMES)
Next == /\ Len(segs) < MAXLEN
        /\ \E i \in 1..Len(Menu.steps) :
             LET q == Append(segs, i)
                 r == Menu.heads[head] \o PathOf(q)
             IN  segs' = q /\ (IF RefClear(r, NAMES) /\ (Len(q) < 3 \/ RefFile(r, NAMES) # "") THEN PrintT("HIST " \o ToJson(r)) ELSE TRUE)
        /\ head' = head
Spec == Init /\ [][Next]_vars

File(r) == RefFile(r, NAMES)
Plain == {"", "file:", "$/", "file:$/", "file://$/"}
Metas == {"metatab+file:", "metatab+file:$/", "metatab+file://$/"}
Heads == IF head # 0 /\ IsMeta(Ref) THEN Metas ELSE Plain
(* what a reference names does not depend on how it begins *)
InvHead  == Clear => \A h \in Heads : File(h \o Path) = File(Ref)
InvMeta  == Clear /\ EndsIn(Ref, ".csv") => \A h \in Plain \cup Metas : File(h \o Path) = File(Ref)
(* nor on steps that lead nowhere *)
InvSteps == Clear => \A d \in {"./", "w/../", ".//"} : File(Menu.heads[head] \o d \o Path) = File(Ref)
(* a directory stands for the metadata.csv in it *)
InvDir   == Clear /\ Ext(BaseName(Path)) \notin FileExts => File(Ref) = File(Ref \o "/metadata.csv") /\ File(Ref) = File(Ref \o "/")
InvThere == Clear => File(Ref) \in NAMES \cup {""}
InvOwn   == \A f \in NAMES : ~InZip(f) => File("metatab+file:" \o f) = f
=============================================================================
