------------------------------- MODULE RubyOps -------------------------------
(* The registry as seen from the Ruby bindings: Ruby's calls, with their     *)
(* defaults, in terms of the operators of the registry, and the exception    *)
(* class each failure is turned into.  Every failure is a Ruby exception.    *)
EXTENDS RegistryOps, Idl

Raise(o, map) == IF o.res = "ok" THEN o ELSE [o EXCEPT !.res = IF o.res \in DOMAIN map THEN map[o.res] ELSE map["*"]]
Arg == ("*" :> "ArgumentError")
Run == ("*" :> "RuntimeError")
Opt(e, k, d) == IF k \in DOMAIN e THEN e[k] ELSE d

RbBuild(R, n, size) ==
  LET o == BuildSized(R, n, size) IN
  IF o.res # "ok" THEN Err("RuntimeError", R) ELSE IF o.ret = "" THEN Err("NotFound", R) ELSE o
(* a type given by name is built; a type object has to belong to the registry *)
TypeArg(R, n, obj) == IF obj THEN OkRet(R, Get(R, n)) ELSE RbBuild(R, n, 0)
NoObj(regs, R, x, k) == "o" \in DOMAIN x /\ x.o /\ ~Has(IF Opt(x, "fr", 0) # 0 THEN regs[x.fr] ELSE R, x[k])
Foreign(regs, i, x) == Opt(x, "fr", i) # i

RbNumeric(R, e) == Raise(AddType(R, e.n, [Blank EXCEPT !.cat = "numeric", !.num = e.num, !.size = e.size], ""), Arg)
RbOpaque(R, e)  == Raise(AddType(R, e.n, [Blank EXCEPT !.cat = "opaque", !.size = e.size], ""), Arg)
RbNull(R, e)    == Raise(AddType(R, e.n, Blank, ""), Arg)
(* values that are not given follow the previous one, from 0 *)
IsNull(v) == v = <<>>
RECURSIVE EnumVals(_, _)
EnumVals(q, next) == IF q = <<>> THEN <<>>
                     ELSE LET v == IF Len(Head(q)) = 1 THEN next ELSE Head(q)[2] IN <<<<Head(q)[1], v>>>> \o EnumVals(Tail(q), v + 1)
RbEnum(R, e) ==
  LET V == SetOf(EnumVals(e.vals, 0)) IN
  IF e.vals = <<>> \/ \E a, b \in V : a[1] = b[1] /\ a[2] # b[2] THEN Err("ArgumentError", R)
  ELSE Raise(AddType(R, e.n, [Blank EXCEPT !.cat = "enum", !.vals = V, !.size = IF Opt(e, "size", 0) = 0 THEN 4 ELSE e.size], ""), Arg)
(* the types of the fields are built in order; offsets that are not given    *)
(* follow the previous field                                                 *)
RbCompound(regs, R, e) ==
  LET i == RI(e)
      fgn(f) == Opt(f, "o", FALSE) /\ Foreign(regs, i, f)
      bld == FoldLeft(LAMBDA o, f : IF o.res # "ok" THEN o
                                    ELSE IF fgn(f) THEN [o EXCEPT !.ret = Append(@, Get(regs[f.fr], f.t))]
                                    ELSE LET b == TypeArg(o.reg, f.t, Opt(f, "o", FALSE)) IN
                                         [res |-> b.res, reg |-> b.reg, ret |-> Append(o.ret, b.ret)],
                      OkRet(R, <<>>), e.fields)
      fs == FoldLeft(LAMBDA q, k : LET f == e.fields[k]
                                      end == IF k = 1 THEN 0 ELSE q[k - 1].off + bld.reg.types[q[k - 1].t].size
                                  IN Append(q, [n |-> f.n, t |-> bld.ret[k], off |-> Opt(f, "off", end), m |-> <<>>]),
                     <<>>, [k \in 1..Len(e.fields) |-> k])
      sz == Max({0} \union {fs[k].off + bld.reg.types[fs[k].t].size : k \in 1..Len(fs)})
      T == [Blank EXCEPT !.cat = "compound", !.fields = fs, !.size = IF Opt(e, "size", 0) = 0 THEN sz ELSE e.size]
  IN IF \E k \in 1..Len(e.fields) : NoObj(regs, R, e.fields[k], "t") THEN Err("NoRef", R)
     ELSE IF bld.res # "ok" THEN bld
     ELSE IF \E k \in 1..Len(e.fields) : fgn(e.fields[k]) THEN Err("ArgumentError", bld.reg)
     ELSE Raise(AddType(bld.reg, e.n, T, ""), Arg)
RbContainer(regs, R, e) ==
  LET b == TypeArg(R, e.of, Opt(e, "o", FALSE))
      c == CreateContainer(b.reg, e.kind, b.ret)
      o == Raise(c, ("UnknownContainer" :> "NotFound") @@ Arg)
  IN IF NoObj(regs, R, e, "of") THEN Err("NoRef", R)
     ELSE IF Opt(e, "o", FALSE) /\ Foreign(regs, RI(e), e) THEN Err("ArgumentError", R)
     ELSE IF b.res # "ok" THEN b
     ELSE IF o.res # "ok" THEN o
     ELSE IF Opt(e, "size", 0) = 0 THEN o ELSE [o EXCEPT !.reg.types[o.ret].size = e.size]
RbArray(regs, R, e) ==
  IF NoObj(regs, R, e, "of") THEN Err("NoRef", R)
  ELSE RbBuild(R, (IF Opt(e, "o", FALSE) THEN Get(R, e.of) ELSE e.of) \o "[" \o IntStr(e.dim) \o "]", Opt(e, "size", 0))
RbAlias(R, e) == [Raise(Alias(R, e.base, e.name, ""), ("Undefined" :> "NotFound") @@ Arg) EXCEPT !.ret = ""]
RbMeta(R, e) ==
  IF ~Has(R, e.n) THEN Err("NoRef", R)
  ELSE LET t == Get(R, e.n)
           T == R.types[t]
           onf == At(e, "f") # ""
           J == IF onf /\ T.cat = "compound" THEN {j \in 1..Len(T.fields) : T.fields[j].n = e.f} ELSE {}
           j == IF J = {} THEN 0 ELSE Max(J)
           m == IF onf THEN T.fields[j].m ELSE T.meta
           m2 == CASE e.mode = "set" -> Put(m, e.k, SetOf(e.v))
                   [] e.mode = "set1" -> Put(m, e.k, {IF e.v = <<>> THEN "v1" ELSE e.v[1]})
                   [] e.mode = "add" -> Put(m, e.k, (IF e.k \in DOMAIN m THEN m[e.k] ELSE {}) \union SetOf(e.v))
                   [] e.mode \in {"clear", "delete"} -> Without(m, {e.k})
                   [] OTHER -> <<>>
       IN IF onf /\ j = 0 THEN Err("NoRef", R)
          ELSE OkRet(IF onf THEN [R EXCEPT !.types[t].fields[j].m = m2] ELSE [R EXCEPT !.types[t].meta = m2],
                     <<e.k \in DOMAIN m2, IF e.k \in DOMAIN m2 THEN m2[e.k] ELSE {}>>)
Loaded(doc, root) == IF root # "typelib" THEN Err("error", Empty) ELSE ImportDoc(Empty, doc)
(* importing merges by default: what is in the file is loaded on its own first *)
RbLoad(R, e) ==
  LET d == Doc(e.doc)
      root == Opt(e, "root", "typelib")
      l == Loaded(d, root)
  IN CASE e.how = "xml"  -> Raise(IF root # "typelib" THEN Err("error", R) ELSE ImportDoc(R, d), Arg)
       [] e.how = "file" -> Raise(IF root # "typelib" THEN Err("error", R) ELSE ImportDoc(R, d), Run)
       [] OTHER -> IF l.res # "ok" THEN Err("RuntimeError", R) ELSE Raise(Merge(R, l.reg), Run)
RbOutcome(regs, R, e) ==
  LET has == Has(R, e.n)
      t == Get(R, e.n)
      typ(f(_)) == IF ~has THEN Err("NoRef", R) ELSE f(t)
  IN
  CASE e.op = "num"  -> RbNumeric(R, e)
    [] e.op = "opq"  -> RbOpaque(R, e)
    [] e.op = "nul"  -> RbNull(R, e)
    [] e.op = "enu"  -> RbEnum(R, e)
    [] e.op = "cmp"  -> RbCompound(regs, R, e)
    [] e.op = "cont" -> RbContainer(regs, R, e)
    [] e.op = "arr"  -> RbArray(regs, R, e)
    [] e.op = "toptr" -> typ(LAMBDA x : RbBuild(R, PointerName(x), 0))
    [] e.op = "build" -> RbBuild(R, e.n, Opt(e, "sz", 0))
    [] e.op = "get"  -> IF has THEN OkRet(R, t) ELSE Err("NotFound", R)
    [] e.op = "inc"  -> OkRet(R, has)
    [] e.op = "alias" -> RbAlias(R, e)
    [] e.op = "removeAlias"  -> Raise(RemoveAlias(R, e.name), Arg)
    [] e.op = "clearAliases" -> ClearAliases(R)
    [] e.op = "remove" -> typ(LAMBDA x : LET S == ReverseDepends(R, x) IN OkRet(RemoveTypes(R, S), S))
    [] e.op = "rdeps"  -> typ(LAMBDA x : OkRet(R, ReverseDepends(R, x)))
    [] e.op = "aliasesOf" -> typ(LAMBDA x : OkRet(R, AliasesOf(R, x)))
    [] e.op = "prefix" -> OkRet(R, {n \in DOMAIN R.names : StartsWith(e.n, n) /\ (e.al \/ ~IsAlias(R, n))})
    [] e.op = "merge"  -> Raise(Merge(R, regs[e.from]), Run)
    [] e.op = "addt"   -> IF ~Has(regs[e.from], e.n) THEN Err("NoRef", R)
                          ELSE LET m == Minimal(regs[e.from], Get(regs[e.from], e.n), TRUE) IN
                               IF m.res # "ok" THEN Err("RuntimeError", R) ELSE Raise(Merge(R, m.reg), Run)
    [] e.op = "resize" -> Raise(Resize(R, e.sizes), Run)
    [] e.op = "srcof"  -> LET S == regs[Opt(e, "from", RI(e))] u == Get(S, e.n) IN
                          IF ~Has(S, e.n) THEN Err("NoRef", R)
                          ELSE IF u \notin DOMAIN R.names THEN Err("ArgumentError", R) ELSE OkRet(R, R.names[u].s)
    [] e.op = "meta"    -> RbMeta(R, e)
    [] e.op = "enumget" -> Raise(EnumGet(R, e), ("NoRef" :> "NoRef") @@ Arg)
    [] e.op = "tlbload" -> [RbLoad(R, e) EXCEPT !.ret = ""]
    [] e.op = "stdtypes" -> [Raise(AddStandardTypes(R), Arg) EXCEPT !.ret = ""]
    [] OTHER -> Ok(R)
(* ------------------------------------------- registry as Ruby constants *)
CharType == "/int8_t"
IsText(R, t) == (R.types[t].cat = "container" /\ R.types[t].kind = "/std/string") \/ (R.types[t].cat = "array" /\ R.types[t].on = CharType)
Text(R, t) == IsText(R, t) \/ (R.types[t].cat = "pointer" /\ R.types[t].on = CharType)
(* types whose values are given as Ruby objects that have to be kept in step *)
RECURSIVE Conv(_, _)
Conv(R, t) ==
  LET T == R.types[t] IN
  CASE Text(R, t) -> TRUE
    [] T.cat \in {"array", "container"} -> Conv(R, T.on)
    [] T.cat = "compound" -> \E i \in 1..Len(T.fields) : Conv(R, T.fields[i].t)
    [] OTHER -> FALSE
(* the Ruby class that stands for a type, or the type *)
ExportAs(R, t, e) ==
  LET T == R.types[t] IN
  IF Opt(e, "sub", FALSE) THEN <<"c", "Hash">>
  ELSE IF Text(R, t) THEN <<"c", "String">>
  ELSE IF T.cat = "numeric" /\ t # "/bool" THEN <<"c", IF T.num = "float" THEN "Float" ELSE "Numeric">>
  ELSE IF T.cat \in {"array", "container"} /\ Conv(R, T.on) THEN <<"c", "Array">>
  ELSE <<"t", t>>
RECURSIVE Commas(_)
Commas(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Commas(Tail(q))
CallName(x) == x[1] \o (IF Len(x) = 1 THEN "" ELSE "<" \o Commas(Tail(x)) \o ">")
Below2(R, p) == {x \in DOMAIN R.types : StartsWith(p, x)}
NoSlash(s) == FindFrom(s, 1, {"/"}) = 0
(* x: a call; p: what the names start with.  Candidates for types, then for  *)
(* namespaces, are tried in order; each is the set of what can be chosen.    *)
Tries(R, e, p, x) ==
  LET sc(w) == LET i == CHOOSE i \in 1..Len(e.sc) : e.sc[i][1] = w IN e.sc[i]
      n == CallName(x)
      cands == IF Opt(e, "const", FALSE) THEN <<n, sc(n)[2], sc(n)[3]>> ELSE <<n>>
      rest(y) == From(y, Len(p) + 1)
      types == [i \in 1..Len(cands) |-> IF Has(R, p \o cands[i]) THEN {<<"t", p \o cands[i]>>} ELSE {}]
      nss == [i \in 1..Len(cands) |-> IF Below2(R, p \o cands[i] \o "/") # {} THEN {<<"ns", p \o cands[i]>>} ELSE {}]
      weirdT == {<<"t", y>> : y \in {y \in Below2(R, p) : NoSlash(rest(y)) /\ rest(y) # "" /\ sc(rest(y))[2] = sc(n)[2]}}
      weirdN == {<<"ns", p \o Split(rest(y))[1]>> : y \in {y \in Below2(R, p) : rest(y) # "" /\ sc(Split(rest(y))[1])[2] = sc(n)[2]}}
  IN SelectSeq(IF Opt(e, "const", FALSE) THEN types \o <<weirdT>> \o nss \o <<weirdN>> ELSE types \o nss, LAMBDA s : s # {})
Either == [res |-> "any", ret |-> <<>>]
RECURSIVE Resolve(_, _, _, _, _)
Resolve(R, e, p, path, kind) ==
  LET q == Tries(R, e, p, Head(path))
      c == CHOOSE c \in q[1] : TRUE
      last == Len(path) = 1
      t == Get(R, c[2])
      missing == [res |-> IF kind = "ns" \/ Opt(e, "const", FALSE) THEN "RuntimeError" ELSE "NoMethod", ret |-> <<>>]
  IN IF q = <<>> THEN missing
     ELSE IF Cardinality(q[1]) > 1 THEN Either
     ELSE IF c[1] = "ns" THEN (IF last THEN [res |-> "ok", ret |-> <<"ns", c[2] \o "/*">>] ELSE Resolve(R, e, c[2] \o "/", Tail(path), "ns"))
     ELSE IF At(e, "hide") = t THEN (IF Opt(e, "const", FALSE) THEN Either ELSE missing)
     ELSE IF last THEN [res |-> "ok", ret |-> ExportAs(R, t, e)]
     ELSE IF AliasesOf(R, t) # {} THEN Either
     ELSE Resolve(R, e, t \o "/", Tail(path), "t")
Exported(R, e) == [i \in 1..Len(e.paths) |-> Resolve(R, e, "/", e.paths[i], e.how)]
(* operations that create registry e.d *)
RbCreates(e) == e.op \in {"dup", "minimal", "minreg", "minimal2", "tlbtrip", "typexml"}
RbCreated(regs, R, e) ==
  CASE e.op = "dup" -> Raise(Merge(Empty, R), Run)
    [] e.op = "minimal" -> Raise(Minimal(R, e.n, Opt(e, "al", TRUE)), Run)
    [] e.op = "minreg"  -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE Raise(Minimal(R, Get(R, e.n), Opt(e, "al", TRUE)), Run)
    [] e.op = "minimal2" -> Raise(MinimalAuto(R, regs[e["auto"]], Opt(e, "keep", FALSE)), Run)
    [] e.op = "typexml" -> IF ~Has(R, e.n) THEN Err("NoRef", R) ELSE Raise(RoundTrip(Minimal(R, Get(R, e.n), TRUE).reg), Arg)
    [] OTHER -> IF e.how # "file" THEN Raise(RoundTrip(R), Arg)
                ELSE LET t == RoundTrip(R) IN IF t.res # "ok" THEN Err("RuntimeError", R) ELSE Raise(Merge(Empty, t.reg), Run)
RbPartial(e, o) == o.res # "ok" /\ e.op \in {"merge", "addt", "tlbload", "tlbraw", "stdtypes"}
RbApply(regs, e) ==
  LET R == regs[RI(e)] IN
  IF e.op = "export" THEN [res |-> "ok", partial |-> FALSE, regs |-> regs]
  ELSE IF RbCreates(e) THEN LET o == RbCreated(regs, R, e) IN [res |-> o.res, partial |-> FALSE, regs |-> IF o.res = "ok" THEN [regs EXCEPT ![e.d] = o.reg] ELSE regs]
  ELSE LET o == RbOutcome(regs, R, e) IN [res |-> o.res, partial |-> RbPartial(e, o), regs |-> [regs EXCEPT ![RI(e)] = o.reg]]
=============================================================================
