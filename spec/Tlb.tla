--------------------------------- MODULE Tlb ---------------------------------
(* The TLB exchange format: abstract documents (sequences of nodes), export  *)
(* of a registry to a document, import of a document in a registry.          *)
EXTENDS Registry

(* --------------------------------------------------------------- export *)
NodeKeys == {"k", "name", "source_id", "size", "category", "of", "kind", "source", "dimension", "fields", "vals", "meta"}
BlankNode == [k |-> "", name |-> "", source_id |-> "", size |-> "", category |-> "", of |-> "", kind |-> "",
              source |-> "", dimension |-> "", fields |-> <<>>, vals |-> {}, meta |-> <<>>]
ExportEntry(R, n) ==
  IF IsAlias(R, n) THEN [BlankNode EXCEPT !.k = "alias", !.name = n, !.source = R.names[n].t]
  ELSE LET T == R.types[n]
           B == [BlankNode EXCEPT !.k = T.cat, !.name = n, !.source_id = R.names[n].s, !.meta = T.meta]
       IN CASE T.cat = "numeric" -> [B EXCEPT !.category = T.num, !.size = NatStr(T.size)]
            [] T.cat = "null"    -> B
            [] T.cat = "opaque"  -> [B EXCEPT !.size = NatStr(T.size)]
            [] T.cat = "enum"    -> [B EXCEPT !.size = IF T.size = 4 THEN "" ELSE NatStr(T.size), !.vals = {<<v[1], IntStr(v[2])>> : v \in T.vals}]
            [] T.cat = "pointer" -> [B EXCEPT !.of = T.on]
            [] T.cat = "array"   -> [B EXCEPT !.of = T.on, !.dimension = NatStr(T.dim)]
            [] T.cat = "container" -> [B EXCEPT !.of = T.on, !.size = NatStr(T.size), !.kind = T.kind]
            [] OTHER -> [B EXCEPT !.size = NatStr(T.size),
                                  !.fields = [i \in 1..Len(T.fields) |-> [n |-> T.fields[i].n, t |-> T.fields[i].t,
                                                  off |-> NatStr(T.fields[i].off), m |-> T.fields[i].m]]]
Persistent(R) == {n \in DOMAIN R.names : R.names[n].p}
(* Types that can be exported in dependency order *)
RECURSIVE Exportable(_, _)
Exportable(R, S) == LET n == S \union {t \in DOMAIN R.types : Deps(R.types[t]) \subseteq S} IN
                    IF n = S THEN S ELSE Exportable(R, n)
HasCycle(R) == Exportable(R, {}) # DOMAIN R.types
(* Every persistent entry once; what a definition refers to comes first *)
PosOf(seq, n) == LET c == {i \in 1..Len(seq) : seq[i] = n} IN IF c = {} THEN 0 ELSE Min(c)
OrderOk(R, seq) ==
  /\ Len(seq) = Cardinality(Persistent(R))
  /\ {seq[i] : i \in 1..Len(seq)} = Persistent(R)
  /\ \A i \in 1..Len(seq) :
       LET before == {seq[j] : j \in 1..(i - 1)} IN
       IF IsAlias(R, seq[i]) THEN ~R.names[R.names[seq[i]].t].p \/ R.names[seq[i]].t \in before
       ELSE \A d \in DepClosure(R, {seq[i]}) \ {seq[i]} : ~R.names[d].p \/ d \in before
(* Entries of a namespace are not split without need: when the exporter      *)
(* leaves a namespace, no other entry of it was ready                        *)
Ready(R, n, done) == IF IsAlias(R, n) THEN (~R.names[R.names[n].t].p \/ R.names[n].t \in done)
                     ELSE \A d \in DepClosure(R, {n}) \ {n} : ~R.names[d].p \/ d \in done

(* --------------------------------------------------------------- import *)
Attr(node, a) == IF a \in DOMAIN node THEN node[a] ELSE ""
HasAttr(node, a) == a \in DOMAIN node /\ node[a] # ""
IsNat(s) == s # "" /\ AllIn(s, Digits)
IsInt(s) == IsNat(s) \/ (Len(s) > 1 /\ Ch(s, 1) = "-" /\ IsNat(From(s, 2)))
ToInt(s) == IF Ch(s, 1) = "-" THEN 0 - StrNat(From(s, 2), 0) ELSE StrNat(s, 0)
Kinds == {"alias", "numeric", "null", "opaque", "enum", "compound", "container", "pointer", "array"}

BAcc(R, map) == [res |-> "ok", reg |-> R, map |-> map, ret |-> ""]
Fail(a, e) == [a EXCEPT !.res = e, !.ret = ""]
With(a, o) == [a EXCEPT !.res = o.res, !.reg = o.reg, !.ret = o.ret]
SeqFields(node) == IF "fields" \in DOMAIN node THEN node.fields ELSE <<>>
SeqVals(node) == IF "vals" \in DOMAIN node THEN node.vals ELSE <<>>
MetaOf(node) == IF "meta" \in DOMAIN node THEN node.meta ELSE <<>>
AddMeta(R, t, m) == [R EXCEPT !.types[t].meta = MergeMeta(@, m)]

(* Fields are sorted by offset, then by name *)
FieldBefore(f, g) == f.off < g.off \/ (f.off = g.off /\ Lex(f.n, g.n))
RECURSIVE InsertField(_, _)
InsertField(seq, f) == IF seq = <<>> THEN <<f>>
                       ELSE IF FieldBefore(f, Head(seq)) THEN <<f>> \o seq ELSE <<Head(seq)>> \o InsertField(Tail(seq), f)
NormFields(fs) == FoldLeft(InsertField, <<>>, fs)

RECURSIVE Build(_, _), LoadNode(_, _), LoadFields(_, _, _, _), AddVals(_, _, _)
AddVals(T, vs, i) ==
  IF i > Len(vs) THEN [res |-> "ok", T |-> T]
  ELSE IF Len(vs[i]) # 2 \/ ~IsInt(vs[i][2]) THEN [res |-> "error", T |-> T]
  ELSE LET v == <<vs[i][1], ToInt(vs[i][2])>> IN
       IF \E w \in T.vals : w[1] = v[1] /\ w[2] # v[2] THEN [res |-> "error", T |-> T]
       ELSE AddVals([T EXCEPT !.vals = @ \union {v}, !.next = v[2] + 1], vs, i + 1)
LoadFields(a, fs, i, out) ==
  IF i > Len(fs) THEN [a |-> a, fields |-> out]
  ELSE LET f == fs[i] IN
       IF ~({"n", "t", "off"} \subseteq DOMAIN f) THEN [a |-> Fail(a, "error"), fields |-> out]
       ELSE IF ~IsNat(f.off) THEN [a |-> Fail(a, "error"), fields |-> out]
       ELSE LET b == Build(a, f.t) IN
            IF b.res # "ok" THEN [a |-> b, fields |-> out]
            ELSE LoadFields(b, fs, i + 1, Append(out, [n |-> f.n, t |-> b.ret, off |-> ToInt(f.off), m |-> IF "m" \in DOMAIN f THEN f.m ELSE <<>>]))
Insert1(a, node, T) == With(a, AddType(a.reg, node.name, [T EXCEPT !.meta = MetaOf(node)], Attr(node, "source_id")))
LoadNode(a, node) ==
  CASE node.k = "numeric" -> IF Attr(node, "category") \notin {"sint", "uint", "float"} \/ ~IsNat(Attr(node, "size")) THEN Fail(a, "error")
                             ELSE Insert1(a, node, [Blank EXCEPT !.cat = "numeric", !.num = node.category, !.size = ToInt(node.size)])
    [] node.k = "null"    -> Insert1(a, node, Blank)
    [] node.k = "opaque"  -> IF ~IsNat(Attr(node, "size")) THEN Fail(a, "error")
                             ELSE Insert1(a, node, [Blank EXCEPT !.cat = "opaque", !.size = ToInt(node.size)])
    [] node.k = "enum"    -> LET v == AddVals([Blank EXCEPT !.cat = "enum", !.size = IF IsNat(Attr(node, "size")) THEN ToInt(node.size) ELSE 4], SeqVals(node), 1) IN
                             IF v.res # "ok" \/ (HasAttr(node, "size") /\ ~IsNat(node.size)) THEN Fail(a, "error") ELSE Insert1(a, node, v.T)
    [] node.k = "compound" -> IF ~IsNat(Attr(node, "size")) THEN Fail(a, "error")
                              ELSE LET l == LoadFields(a, SeqFields(node), 1, <<>>) IN
                                   IF l.a.res # "ok" THEN l.a
                                   ELSE Insert1(l.a, node, [Blank EXCEPT !.cat = "compound", !.size = ToInt(node.size), !.fields = NormFields(l.fields)])
    [] node.k = "container" ->
         IF ~HasAttr(node, "of") THEN Fail(a, "error")
         ELSE LET b == Build(a, node.of) IN
              IF b.res # "ok" THEN b
              ELSE IF ~HasAttr(node, "kind") THEN Fail(b, "error")
              ELSE IF HasAttr(node, "size") /\ ~IsInt(node.size) THEN Fail(b, "error")
              ELSE LET c == CreateContainer(b.reg, node.kind, b.ret) IN
                   IF c.res # "ok" THEN With(b, c)
                   ELSE LET new == c.ret \notin DOMAIN b.reg.types     \* a registered type is not changed
                            R1 == IF new /\ HasAttr(node, "size") /\ ToInt(node.size) # 0 THEN [c.reg EXCEPT !.types[c.ret].size = ToInt(node.size)] ELSE c.reg
                            R2 == IF new /\ HasAttr(node, "source_id") THEN SetSourceID(R1, c.ret, node.source_id) ELSE R1
                        IN [b EXCEPT !.reg = AddMeta(R2, c.ret, MetaOf(node)), !.ret = c.ret]
    [] node.k = "alias" -> IF ~HasAttr(node, "source") THEN Fail(a, "error")
                           ELSE LET b == Build(a, node.source) IN
                                IF b.res # "ok" THEN b
                                ELSE LET o == Alias(b.reg, node.source, node.name, "") IN
                                     IF o.res # "ok" THEN With(b, o) ELSE [b EXCEPT !.reg = o.reg]
    [] OTHER -> Build(a, node.name)
Build(a, name) ==
  LET pr == ParseDerived(name) IN
  IF pr = <<>> THEN Fail(a, "error")
  ELSE LET base == IF name \in DOMAIN a.map /\ a.map[name].k = "alias" /\ ~Has(a.reg, name) THEN name ELSE pr[1]
           b == IF Has(a.reg, base) THEN [a EXCEPT !.map = Without(@, {base}), !.ret = Get(a.reg, base)]
                ELSE IF base \notin DOMAIN a.map THEN Fail(a, "Undefined")
                ELSE LET x == LoadNode([a EXCEPT !.map = Without(@, {base})], a.map[base]) IN
                     IF x.res # "ok" \/ x.ret = base \/ Has(x.reg, base) THEN x
                     ELSE LET o == Alias(x.reg, x.ret, base, "") IN
                          IF o.res # "ok" THEN With(x, o) ELSE [x EXCEPT !.reg = o.reg]
       IN IF b.res # "ok" \/ base = name THEN b
          ELSE LET d == BuildType(b.reg, name) IN
               IF d.res # "ok" THEN With(b, d)
               ELSE LET o == IF d.ret # name /\ ~Has(d.reg, name) THEN Alias(d.reg, d.ret, name, "") ELSE Ok(d.reg)
                    IN IF o.res # "ok" THEN With(b, o)
                       ELSE IF name \in DOMAIN b.map
                       THEN [b EXCEPT !.reg = AddMeta(o.reg, d.ret, MetaOf(b.map[name])), !.map = Without(@, {name}), !.ret = d.ret]
                       ELSE [b EXCEPT !.reg = o.reg, !.ret = d.ret]
RECURSIVE BuildAll(_, _)
BuildAll(a, order) == IF a.res # "ok" \/ order = <<>> THEN a
                      ELSE BuildAll(IF Head(order) \in DOMAIN a.map THEN Build(a, Head(order)) ELSE a, Tail(order))
(* doc: sequence of nodes.  Names are unique but the first definition wins   *)
ImportDoc(R, doc) ==
  IF \E i \in 1..Len(doc) : doc[i].k \notin Kinds \/ "name" \notin DOMAIN doc[i] THEN Err("error", R)
  ELSE LET nm  == {doc[i].name : i \in 1..Len(doc)}
           map == [n \in nm |-> doc[Min({i \in 1..Len(doc) : doc[i].name = n})]]
           a   == BuildAll(BAcc(R, map), LSorted(nm))
       IN [res |-> a.res, reg |-> a.reg, ret |-> ""]

(* Export then import *)
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] = y[1] \/ Lex(x[1], y[1]) IN <<m>> \o SetToSortedSeq(S \ {m})
AsDoc(R, order) == [i \in 1..Len(order) |-> LET e == ExportEntry(R, order[i]) IN [e EXCEPT !.vals = SetToSortedSeq(@)]]
RoundTrip(R) == ImportDoc(Empty, AsDoc(R, LSorted(Persistent(R))))
(* What a round trip has to preserve: everything but the order among fields of equal offset, which an import sorts by name *)
Normal(R) == [R EXCEPT !.types = [t \in DOMAIN @ |-> [@[t] EXCEPT !.fields = NormFields(@)]]]
PreservedAs(R, R2) ==
  /\ \A n \in Persistent(R) : n \in DOMAIN R2.names /\ R2.names[n].t = R.names[n].t
                              /\ Same(R, R.names[n].t, R2, R2.names[n].t)
  /\ \A n \in DOMAIN R2.names : n \in DOMAIN R.names => Same(R, R.names[n].t, R2, R2.names[n].t)
  /\ \A n \in Persistent(R) : ~IsAlias(R, n) =>
       /\ R.types[n].cat \notin Indirects => R2.names[n].s = R.names[n].s
       /\ \A k \in DOMAIN R.types[n].meta : k \in DOMAIN R2.types[n].meta /\ R.types[n].meta[k] \subseteq R2.types[n].meta[k]
Preserved(R, R2) == PreservedAs(Normal(R), R2)
=============================================================================
