----------------------------- MODULE RegistryOps -----------------------------
(* The calls of the public API, as they appear in traces and in the          *)
(* exhaustive models: a record [op |-> name, ...arguments].                  *)
EXTENDS Listing

SetOf(q) == {q[i] : i \in 1..Len(q)}
ParseMeta(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> SetOf(q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2])]

At(e, k) == IF k \in DOMAIN e THEN e[k] ELSE ""
RI(e) == IF "r" \in DOMAIN e THEN e.r ELSE 1
SpecType(s) == [Blank EXCEPT !.cat = s.cat,
                             !.size = IF "size" \in DOMAIN s THEN s.size ELSE IF s.cat = "enum" THEN 4 ELSE 0,
                             !.num = IF s.cat = "numeric" THEN s.num ELSE "",
                             !.vals = IF "vals" \in DOMAIN s THEN SetOf(s.vals) ELSE {},
                             !.next = IF "vals" \in DOMAIN s /\ Len(s.vals) > 0 THEN s.vals[Len(s.vals)][2] + 1 ELSE 0]
FEnd(R, f) == f.off + R.types[Get(R, f.t)].size
MkCompound(R, s) ==
  LET fs == [i \in 1..Len(s.fields) |-> [n |-> s.fields[i].n, t |-> Get(R, s.fields[i].t), off |-> s.fields[i].off, m |-> <<>>]]
      sz == Max({0} \union {fs[i].off + R.types[fs[i].t].size : i \in 1..Len(fs)})
  IN [Blank EXCEPT !.cat = "compound", !.fields = fs, !.size = IF "size" \in DOMAIN s /\ s.size > 0 THEN s.size ELSE sz]
AddOp(R, e) ==
  LET s == e.spec
      add(n, T) == IF "p" \in DOMAIN e THEN AddTypePS(R, n, T, e.p, At(e, "s")) ELSE AddType(R, n, T, At(e, "s"))
      okv(o) == [o EXCEPT !.ret = ""]
  IN CASE s.cat \in {"array", "pointer"} ->
            IF ~Has(R, s.on) THEN Err("NoRef", R)
            ELSE LET T == IF s.cat = "array" THEN MkArray(R, Get(R, s.on), s.dim) ELSE MkPointer(Get(R, s.on)) IN
                 okv(add(DerivedName(T, T.on), T))
       [] s.cat = "compound" -> IF \E i \in 1..Len(s.fields) : ~Has(R, s.fields[i].t) THEN Err("NoRef", R)
                                ELSE okv(add(s.n, MkCompound(R, s)))
       [] OTHER -> okv(add(s.n, SpecType(s)))
(* a compound with pointers to itself, registered along with the pointer *)
AddRec(R, e) ==
  LET s == e.spec
      p == PointerName(s.n)
      fs == [i \in 1..Len(s.fields) |-> [n |-> s.fields[i].n, off |-> s.fields[i].off, m |-> <<>>,
                                         t |-> IF s.fields[i].t = "self" THEN p ELSE Get(R, s.fields[i].t)]]
      fsize(i) == IF s.fields[i].t = "self" THEN PtrSize ELSE R.types[fs[i].t].size
      sz == Max({0} \union {fs[i].off + fsize(i) : i \in 1..Len(fs)})
      T == [Blank EXCEPT !.cat = "compound", !.fields = fs, !.size = IF "size" \in DOMAIN s /\ s.size > 0 THEN s.size ELSE sz]
  IN IF \E i \in 1..Len(s.fields) : s.fields[i].t # "self" /\ ~Has(R, s.fields[i].t) THEN Err("NoRef", R)
     ELSE IF Has(R, p) \/ Has(R, s.n) THEN Err("AlreadyDefined", R)
     ELSE IF ~IsValidName(s.n, TRUE) THEN Err("BadName", R)
     ELSE LET R1 == AddType(R, p, MkPointer(s.n), "").reg IN
          Ok(AddType(R1, s.n, T, "").reg)

MetaOp(R, e) ==
  IF ~Has(R, e.n) THEN Err("NoRef", R)
  ELSE LET t == Get(R, e.n)
           T == R.types[t]
           onf == At(e, "f") # ""
           j == IF onf /\ T.cat = "compound" THEN FieldNamed(T, e.f) ELSE 0
           m == IF onf THEN T.fields[j].m ELSE T.meta
           m2 == CASE e.mode = "set" -> Put(m, e.k, {e.v})
                   [] e.mode = "add" -> Put(m, e.k, (IF e.k \in DOMAIN m THEN m[e.k] ELSE {}) \union {e.v})
                   [] e.mode = "both" -> Put(m, e.k, (IF e.k \in DOMAIN m THEN m[e.k] ELSE {}) \union {e.v, "w"})
                   [] e.mode = "key" -> Put(m, e.k, IF e.k \in DOMAIN m THEN m[e.k] ELSE {})
                   [] e.mode = "clear" -> Without(m, {e.k})
                   [] OTHER -> <<>>
       IN IF onf /\ j = 0 THEN Err("NoRef", R)
          ELSE OkRet(IF onf THEN [R EXCEPT !.types[t].fields[j].m = m2] ELSE [R EXCEPT !.types[t].meta = m2],
                     <<e.k \in DOMAIN m2, IF e.k \in DOMAIN m2 THEN m2[e.k] ELSE {}>>)
EnumGet(R, e) ==
  IF ~Has(R, e.n) \/ R.types[Get(R, e.n)].cat # "enum" THEN Err("NoRef", R)
  ELSE LET V == R.types[Get(R, e.n)].vals
           c == IF "sym" \in DOMAIN e THEN {v \in V : v[1] = e.sym} ELSE {v \in V : v[2] = e.val}
       IN IF c = {} THEN Err("error", R)
          ELSE OkRet(R, IF "sym" \in DOMAIN e THEN (CHOOSE v \in c : TRUE)[2]
                        ELSE (CHOOSE v \in c : \A w \in c : v[1] = w[1] \/ Lex(v[1], w[1]))[1])
EnumAdd(R, e) ==
  IF ~Has(R, e.n) \/ R.types[Get(R, e.n)].cat # "enum" THEN Err("NoRef", R)
  ELSE LET t == Get(R, e.n)
           T == R.types[t]
           v == <<e.sym, IF e["auto"] THEN T.next ELSE e.val>>
       IN IF \E w \in T.vals : w[1] = v[1] /\ w[2] # v[2] THEN Err("error", R)
          ELSE LET T2 == [T EXCEPT !.vals = @ \union {v}, !.next = v[2] + 1] IN
               OkRet([R EXCEPT !.types[t] = T2], <<T2.next, {w[1] : w \in T2.vals}>>)

(* The standard types: one call after the other, up to the first that fails *)
StdAliases(t, q) == [i \in 1..Len(q) |-> <<q[i], t>>]
StdNumbers == <<<<"/int8_t", "sint", 1>>, <<"/uint8_t", "uint", 1>>, <<"/int16_t", "sint", 2>>, <<"/uint16_t", "uint", 2>>,
                <<"/int32_t", "sint", 4>>, <<"/uint32_t", "uint", 4>>, <<"/int64_t", "sint", 8>>, <<"/uint64_t", "uint", 8>>>>
StdNames ==
  StdAliases("/int8_t", <<"/signed char", "/char">>) \o StdAliases("/uint8_t", <<"/unsigned char">>)
  \o StdAliases("/int32_t", <<"/wchar_t">>)
  \o StdAliases("/int16_t", <<"/signed short int", "/signed int short", "/int signed short", "/short signed int", "/signed short int", "/signed short", "/short signed", "/short", "/short int">>)
  \o StdAliases("/uint16_t", <<"/short unsigned int", "/short int unsigned", "/int short unsigned", "/unsigned short int", "/short unsigned", "/unsigned short">>)
  \o StdAliases("/int32_t", <<"/signed int", "/signed", "/int signed", "/int">>)
  \o StdAliases("/uint32_t", <<"/unsigned int", "/unsigned", "/int unsigned">>)
  \o StdAliases("/int64_t", <<"/signed long int", "/signed int long", "/int signed long", "/long signed int", "/signed long int", "/signed long", "/long signed", "/long", "/long int">>)
  \o StdAliases("/uint64_t", <<"/long unsigned int", "/long int unsigned", "/int long unsigned", "/unsigned long int", "/long unsigned", "/unsigned long">>)
  \o StdAliases("/int64_t", <<"/signed long long int", "/signed long int long", "/signed int long long", "/int signed long long", "/long signed long int", "/long long signed int",
                             "/long long int signed", "/signed long long", "/long long signed", "/long signed long", "/long long int", "/long int long", "/int long long", "/long long">>)
  \o StdAliases("/uint64_t", <<"/unsigned long long int", "/unsigned long int long", "/unsigned int long long", "/int unsigned long long", "/long unsigned long int", "/long long unsigned int",
                              "/long long int unsigned", "/unsigned long long", "/long long unsigned", "/long unsigned long">>)
StdNum(o, x) == IF o.res # "ok" THEN o ELSE AddType(o.reg, x[1], [Blank EXCEPT !.cat = "numeric", !.num = x[2], !.size = x[3]], "")
StdAlias(o, x) == IF o.res # "ok" THEN o ELSE Alias(o.reg, x[2], x[1], "")
AddStandardTypes(R) ==
  LET hb == HasOrBuild(R, "/bool")
      a == AddType(R, "/nil", [Blank EXCEPT !.cat = "null"], "")
      b == FoldLeft(StdNum, StdAlias(a, <<"/void", "/nil">>), StdNumbers)
      d == FoldLeft(StdNum, FoldLeft(StdAlias, b, StdNames), <<<<"/float", "float", 4>>, <<"/double", "float", 8>>, <<"/bool", "uint", 1>>>>)
      o == IF hb.ret THEN Ok(R) ELSE d
  IN IF o.res # "ok" THEN o
     ELSE LET p == IF Has(o.reg, "/int8_t") THEN o.reg ELSE AddType(o.reg, "/int8_t", SpecType([cat |-> "numeric", num |-> "sint", size |-> 1]), "").reg IN
          IF Has(p, "/std/string") THEN Ok(p) ELSE [AddType(p, "/std/string", MkString(Get(p, "/int8_t")), "") EXCEPT !.ret = ""]

(* the document of an event, as the nodes of the specification *)
DocNode(x) == [k \in DOMAIN x |-> IF k = "meta" THEN ParseMeta(x.meta)
                                  ELSE IF k = "fields" THEN [i \in 1..Len(x.fields) |-> [j \in DOMAIN x.fields[i] |-> IF j = "m" THEN ParseMeta(x.fields[i].m) ELSE x.fields[i][j]]]
                                  ELSE x[k]]
Doc(q) == [i \in 1..Len(q) |-> DocNode(q[i])]

RECURSIVE JoinWords(_)
JoinWords(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o JoinWords(Tail(q))
(* Outcome of the operations that modify (at most) the registry they are called on *)
Outcome(regs, R, e) ==
  CASE e.op = "add"       -> AddOp(R, e)
    [] e.op = "addrec"    -> AddRec(R, e)
    [] e.op = "iofail"    -> Err("error", R)
    [] e.op = "container" -> IF ~Has(R, e.of) THEN Err("NoRef", R)
                             ELSE IF "args" \in DOMAIN e /\ e.args # 1 /\ e.kind = "/std/vector" THEN Err("error", R) ELSE CreateContainer(R, e.kind, Get(R, e.of))
    [] e.op = "alias"     -> IF "p" \in DOMAIN e THEN AliasPS(R, e.base, e.name, e.p, At(e, "s")) ELSE Alias(R, e.base, e.name, At(e, "s"))
    [] e.op = "removeAlias"  -> RemoveAlias(R, e.name)
    [] e.op = "clearAliases" -> ClearAliases(R)
    [] e.op = "clear"     -> Clear(R)
    [] e.op = "remove"    -> IF ~Has(R, e.n) THEN Err("NoRef", R)
                             ELSE LET S == ReverseDepends(R, Get(R, e.n)) IN OkRet(RemoveTypes(R, S), S)
    [] e.op = "rdeps"     -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE OkRet(R, ReverseDepends(R, Get(R, e.n)))
    [] e.op = "aliasesOf" -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE OkRet(R, AliasesOf(R, Get(R, e.n)))
    [] e.op = "build"     -> BuildSized(R, e.n, IF "sz" \in DOMAIN e THEN e.sz ELSE 0)
    [] e.op = "tb"        -> LET n == IF "base" \in DOMAIN e THEN JoinWords(e.base) ELSE e.n IN
                             IF ~Has(R, n) THEN Err(IF "base" \in DOMAIN e THEN "Undefined" ELSE "NoRef", R) ELSE RunBuilder(R, Get(R, n), e.steps)
    [] e.op = "tbs"       -> BuildFrom(R, e.n, IF "sz" \in DOMAIN e THEN e.sz ELSE 0)
    [] e.op = "copysrc"   -> Ok(CopySourceIDs(R, regs[e.from]))
    [] e.op = "dump"      -> OkRet(R, Dump(R, e.all, e.src, e.flt))
    [] e.op = "show"      -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE OkRet(R, Show(R, Get(R, e.n), e.ind))
    [] e.op = "stdtypes"  -> AddStandardTypes(R)
    [] e.op = "has"       -> HasOrBuild(R, e.n)
    [] e.op = "find"      -> OkRet(R, IF e.n \in DOMAIN R.names THEN e.n ELSE "")
    [] e.op = "included"  -> IF ~Has(regs[e.r2], e.n) THEN Err("NoRef", R)
                             ELSE OkRet(R, e.r2 = RI(e))
    [] e.op = "prefix"    -> OkRet(R, {n \in DOMAIN R.names : StartsWith(e.n, n)})
    [] e.op = "fullname"  -> OkRet(R, FullName(R, e.n))
    [] e.op = "setns"     -> SetNS(R, e.ns)
    [] e.op = "import"    -> Import(R, e.ns, e.erase)
    [] e.op = "merge"     -> Merge(R, regs[e.from])
    [] e.op = "resize"    -> Resize(R, e.sizes)
    [] e.op = "setsrc"    -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE Ok(SetSourceID(R, Get(R, e.n), e.s))
    [] e.op = "meta"      -> MetaOp(R, e)
    [] e.op = "mergemeta" -> Ok(MergeMetaData(R, regs[e.from]))
    [] e.op = "enumget"   -> EnumGet(R, e)
    [] e.op = "enumadd"   -> EnumAdd(R, e)
    [] e.op = "tlbload"   -> IF "root" \in DOMAIN e /\ e.root # "typelib" THEN Err("error", R) ELSE ImportDoc(R, Doc(e.doc))
    [] e.op \in {"same", "order", "tlbsave"} -> Ok(R)
    [] OTHER -> Ok(R)

(* operations that create the registry number e.d *)
Creates(e) == e.op \in {"minimal", "minimal2", "tlbtrip"}
Created(regs, e) ==
  LET R == regs[RI(e)] IN
  CASE e.op = "minimal"  -> Minimal(R, e.n, e.al)
    [] e.op = "minimal2" -> MinimalAuto(R, regs[e["auto"]], e.keep)
    [] OTHER -> IF HasCycle(R) THEN Err("ExportError", R) ELSE RoundTrip(R)
Partial(e, o) == o.res # "ok" /\ e.op \in {"merge", "tlbload", "tlbraw", "stdtypes"}
Apply(regs, e) ==
  IF Creates(e) THEN LET o == Created(regs, e) IN [res |-> o.res, partial |-> FALSE, regs |-> IF o.res = "ok" THEN [regs EXCEPT ![e.d] = o.reg] ELSE regs]
  ELSE LET o == Outcome(regs, regs[RI(e)], e) IN [res |-> o.res, partial |-> Partial(e, o), regs |-> [regs EXCEPT ![RI(e)] = o.reg]]
=============================================================================
