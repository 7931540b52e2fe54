-------------------------------- MODULE MPack -------------------------------
(* Conversion to a datapackage: the expected result as a node, or an error. *)
EXTENDS MSerial

RECURSIVE ZipPut(_, _, _, _)
ZipPut(q, names, cells, i) ==
  IF i > Len(names) \/ i > Len(cells) THEN q ELSE ZipPut(DPut(q, Lower(names[i]), Scal(cells[i])), names, cells, i + 1)
ArgProps(s, t) == DPut(ZipPut(<<>>, PropNames(s), t.a, 1), Lower(t.tv), Scal(t.v))
Props(t) == FoldLeft(LAMBDA a, c : DPut(a, c.r, Scal(c.v)), <<>>, t.k)
AllProps(s, t) == FoldLeft(LAMBDA a, e : DPut(a, e[1], e[2]), ArgProps(s, t), Props(t))
At(q, key) == LET i == DIdx(q, key) IN IF i = 0 THEN ABSENT ELSE IF q[i][2].k = "s" THEN q[i][2].s ELSE "?"

TypeMap(c) == CASE c \in {"Sstr", "Stext", "Sunicode"} -> "Sstring" [] c = "Sint" -> "Sinteger" [] c = "Sfloat" -> "Snumber"
                [] c = ABSENT -> "N" [] OTHER -> c
Field(n) ==
  LET q == IF n.k = "s" THEN <<<<"name", n>>>> ELSE n.d
      put(a, key) == IF At(q, key) \in {ABSENT} \/ (At(q, key) # "?" /\ Falsy(At(q, key))) THEN a ELSE DPut(a, key, q[DIdx(q, key)][2])
  IN  MapN(DPut(put(put(put(<<>>, "name"), "title"), "description"), "type", Scal(TypeMap(At(q, "datatype")))))

Schemas(s) ==           \* <<table value, columns>> per term, in order; columns "x" when there are none
  [i \in 1..Len(s.t) |-> LET n == Conv(s.t[i], TRUE)
                             j == IF n.k = "d" THEN DIdx(n.d, "column") ELSE 0
                         IN  <<s.t[i].v, IF j = 0 THEN Poison ELSE n.d[j][2]>>]
SchemaOf(q, c) == LastIdx(q, LAMBDA e : e[1] = c)

(* outside the specification: joined values that are not text, repeated names where one is expected, single
   columns that are not declared to be lists, data files without url or name *)
PackOk(D) ==
  LET sc == SecIdx(D.secs, "schema")
      rs == SecIdx(D.secs, "resources")
      id == SecIdx(D.secs, "identity")
  IN  /\ ~Poisoned(DocDict(D, TRUE))
      /\ id = 0 \/ D.secs[id].t # <<>>
      /\ sc = 0 \/ \A i \in 1..Len(D.secs[sc].t) :
           LET n == Conv(D.secs[sc].t[i], TRUE)
               j == IF n.k = "d" THEN DIdx(n.d, "column") ELSE 0
           IN  j # 0 => /\ n.d[j][2].k = "l"
                        /\ \A c \in SetOf(n.d[j][2].l) : c.k = "s" \/ (c.k = "d" /\ \A key \in {"name", "title", "description", "datatype"} : At(c.d, key) # "?")
      /\ rs = 0 \/ \A i \in 1..Len(D.secs[rs].t) :
           LET t == D.secs[rs].t[i]
               q == AllProps(D.secs[rs], t)
           IN  t.r = "datafile" => At(q, "url") # ABSENT /\ At(q, "name") # ABSENT
Pack(D) ==
  LET root == D.secs[RootIx(D)]
      id == SecIdx(D.secs, "identity")
      sc == SecIdx(D.secs, "schema")
      rs == SecIdx(D.secs, "resources")
      d0 == RootDict(root.t, TRUE).d
      d1 == IF id = 0 THEN d0 ELSE FoldLeft(LAMBDA a, e : DPut(a, e[1], e[2]), d0, SecDict(D.secs[id], TRUE).d)
      d2 == IF DIdx(d1, "name") # 0 THEN d1 ELSE IF DIdx(d1, "identifier") = 0 THEN <<>> ELSE DPut(d1, "name", d1[DIdx(d1, "identifier")][2])
      q  == Schemas(D.secs[sc])
      files == SelectSeq(D.secs[rs].t, LAMBDA t : t.r = "datafile")
      res(t) == LET a == AllProps(D.secs[rs], t)
                    n == SchemaOf(q, At(a, "name"))
                    i == IF n # 0 THEN n ELSE IF DIdx(a, "table") = 0 THEN 0 ELSE SchemaOf(q, At(a, "table"))
                IN  IF i = 0 THEN <<>>
                    ELSE <<MapN(<<<<"path", Scal(At(a, "url"))>>, <<"name", Scal(At(a, "name"))>>,
                             <<"schema", MapN(<<<<"fields", ListN([c \in 1..Len(q[i][2].l) |-> Field(q[i][2].l[c])])>>>>)>>>>)>>
  IN  IF d2 = <<>> THEN [x |-> "ConversionError", n |-> Poison]
      ELSE IF sc = 0 \/ (\E i \in 1..Len(q) : q[i][2].k = "x") THEN [x |-> "ConversionError", n |-> Poison]
      ELSE [x |-> "", n |-> MapN(DPut(d2, "resources", ListN(IF rs = 0 THEN <<>> ELSE Concat([i \in 1..Len(files) |-> res(files[i])]))))]
=============================================================================
