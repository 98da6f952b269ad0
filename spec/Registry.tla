------------------------------ MODULE Registry ------------------------------
(* The type registry: types, their names and aliases, name resolution,       *)
(* merging, extraction, removal, resizing, comparison, metadata.             *)
(*                                                                           *)
(* A registry is a record                                                    *)
(*   ns    : the default namespace (normalised)                              *)
(*   names : registered absolute name -> [t: primary name, p: persistent,    *)
(*                                        s: source ID]                      *)
(*   types : primary name -> type                                            *)
(*   rel   : relative names that can be resolved -> primary name             *)
(* A type refers to other types by primary name.  Every operation is a pure  *)
(* operator that returns [res |-> outcome, reg |-> registry after it, ...].  *)
EXTENDS Names, TLC, Integers, FiniteSetsExt, SequencesExt

Empty == [ns |-> "/", names |-> <<>>, types |-> <<>>, rel |-> <<>>]
PtrSize    == 8
VectorSize == 24
StringSize == 32

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RangeOf(f) == {f[x] : x \in DOMAIN f}
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Ok(R)      == [res |-> "ok", reg |-> R, ret |-> ""]
OkRet(R, v) == [res |-> "ok", reg |-> R, ret |-> v]
Err(e, R)  == [res |-> e, reg |-> R, ret |-> ""]

(* ---------------------------------------------------------------- types *)
Blank == [cat |-> "null", size |-> 0, num |-> "", on |-> "", dim |-> 0, kind |-> "",
          fields |-> <<>>, vals |-> {}, next |-> 0, meta |-> <<>>]
MkArray(R, on, dim) == [Blank EXCEPT !.cat = "array", !.size = dim * R.types[on].size, !.on = on, !.dim = dim]
MkPointer(on)       == [Blank EXCEPT !.cat = "pointer", !.size = PtrSize, !.on = on]
MkVector(on)        == [Blank EXCEPT !.cat = "container", !.size = VectorSize, !.on = on, !.kind = "/std/vector"]
MkString(on)        == [Blank EXCEPT !.cat = "container", !.size = StringSize, !.on = on, !.kind = "/std/string"]
Indirects == {"array", "pointer", "container"}
Deps(T) == IF T.cat \in Indirects THEN {T.on}
           ELSE {T.fields[i].t : i \in 1..Len(T.fields)}
(* the name a derived type gets from the name of what it refers to *)
DerivedName(T, on) == CASE T.cat = "array"   -> ArrayName(on, T.dim)
                       [] T.cat = "pointer" -> PointerName(on)
                       [] T.kind = "/std/vector" -> VectorName(on)
                       [] OTHER -> "/std/string"
Propagates(T) == T.cat \in {"array", "pointer"} \/ (T.cat = "container" /\ T.kind = "/std/vector")

RECURSIVE DepClosure(_, _)
DepClosure(R, S) == LET n == S \union UNION {Deps(R.types[t]) : t \in S} IN IF n = S THEN S ELSE DepClosure(R, n)

(* ------------------------------------------------------- name resolution *)
IsAlias(R, n)   == R.names[n].t # n
AliasesOf(R, t) == {n \in DOMAIN R.names : R.names[n].t = t /\ n # t}
Has(R, n)       == n \in DOMAIN R.names \/ n \in DOMAIN R.rel
Get(R, n)       == IF n \in DOMAIN R.names THEN R.names[n].t ELSE IF n \in DOMAIN R.rel THEN R.rel[n] ELSE ""

(* Relative names given by the default namespace: each enclosing namespace   *)
(* is searched, innermost first                                              *)
RelOf(names, ns) ==
  LET ch == NSChain(ns)
      at(j) == {From(n, Len(ch[j]) + 1) : n \in {m \in DOMAIN names : StartsWith(ch[j], m)}}
      all == UNION {at(j) : j \in 1..Len(ch)}
  IN [x \in all |-> names[ch[CHOOSE j \in 1..Len(ch) : ch[j] \o x \in DOMAIN names
                              /\ \A k \in (j + 1)..Len(ch) : ch[k] \o x \notin DOMAIN names] \o x].t]
FullName(R, n) == IF IsAbsolute(n) THEN n ELSE R.ns \o n
Recalc(R) == [R EXCEPT !.rel = RelOf(R.names, R.ns)]

SetNS(R, ns) == IF IsValidNS(ns, TRUE) THEN OkRet(Recalc([R EXCEPT !.ns = NormNS(ns)]), TRUE) ELSE OkRet(R, FALSE)
Import(R, ns, erase) ==
  LET N == NormNS(ns)
      D == {n \in DOMAIN R.names : StartsWith(N, n)}
      new == [x \in {From(n, Len(N) + 1) : n \in D} |-> R.names[N \o x].t]
  IN Ok([R EXCEPT !.rel = IF erase THEN new @@ R.rel ELSE R.rel @@ new])

(* ---------------------------------------------------------- add / alias *)
DefaultP(n, t, cat) == IF n # t THEN TRUE ELSE cat \notin {"pointer", "array"}
Insert(R, n, t, p, s) ==
  LET ch == NSChain(R.ns)
      lv == {i \in 1..Len(ch) : StartsWith(ch[i], n)}
      vis == {i \in lv : \A j \in (i + 1)..Len(ch) : (ch[j] \o From(n, Len(ch[i]) + 1)) \notin DOMAIN R.names}
      new == {From(n, Len(ch[i]) + 1) : i \in vis}
  IN [R EXCEPT !.names = Put(@, n, [t |-> t, p |-> p, s |-> s]),
               !.rel = [x \in DOMAIN @ \union new |-> IF x \in new THEN t ELSE @[x]]]

RECURSIVE PropagateAliases(_, _), AliasPS(_, _, _, _, _)
(* t refers to a type that has aliases: t gets the matching aliases *)
PropagateAliases(R, t) ==
  LET T == R.types[t] IN
  IF ~Propagates(T) THEN R
  ELSE FoldSet(LAMBDA a, acc : LET n == DerivedName(T, a) IN
                               IF Has(acc, n) THEN acc ELSE AliasPS(acc, t, n, FALSE, "").reg,
               R, AliasesOf(R, T.on))
AliasPS(R, base, n, p, s) ==
  IF ~IsValidName(n, TRUE) THEN Err("BadName", R)
  ELSE IF ~Has(R, base) THEN Err("Undefined", R)
  ELSE LET t == Get(R, base) IN
       IF Has(R, n) /\ Get(R, n) # t THEN Err("AlreadyDefined", R)
       ELSE LET R1 == IF Has(R, n) THEN R ELSE Insert(R, n, t, p, s) IN
            Ok(FoldSet(LAMBDA u, acc : PropagateAliases(acc, u), R1,
                       {u \in DOMAIN R1.types : t \in Deps(R1.types[u])}))
Alias(R, base, n, s) == IF ~Has(R, base) THEN Err("Undefined", R)
                        ELSE AliasPS(R, base, n, DefaultP(n, Get(R, base), R.types[Get(R, base)].cat), s)

AddTypePS(R, n, T, p, s) ==
  IF ~IsValidName(n, TRUE) THEN Err("BadName", R)
  ELSE IF Has(R, n) THEN Err("AlreadyDefined", R)
  ELSE LET R1 == Insert([R EXCEPT !.types = Put(@, n, T)], n, n, p, s) IN
       OkRet(IF \E d \in Deps(T) : AliasesOf(R1, d) # {} THEN PropagateAliases(R1, n) ELSE R1, n)
AddType(R, n, T, s) == AddTypePS(R, n, T, DefaultP(n, n, T.cat), s)

(* --------------------------------------------------------- derived types *)
RECURSIVE ApplyMods(_, _, _)
ApplyMods(R, t, mods) ==       \* mods: <<"p"|"a", count>>
  IF mods = <<>> THEN OkRet(R, t)
  ELSE LET m == Head(mods)
           T == IF m[1] = "p" THEN MkPointer(t) ELSE MkArray(R, t, m[2])
           n == DerivedName(T, t)
           o == IF Has(R, n) THEN OkRet(R, Get(R, n)) ELSE AddType(R, n, T, "")
       IN IF o.res # "ok" THEN o ELSE ApplyMods(o.reg, o.ret, Tail(mods))
BuildType(R, n) ==
  IF Has(R, n) THEN OkRet(R, Get(R, n))
  ELSE LET pr == ParseDerived(FullName(R, n)) IN
       IF pr = <<>> THEN Err("error", R)
       ELSE IF ~Has(R, pr[1]) THEN OkRet(R, "")
       ELSE ApplyMods(R, Get(R, pr[1]), pr[2])
(* with a size, given to the type when it had to be built *)
BuildSized(R, n, size) ==
  LET o == BuildType(R, n) IN
  IF size = 0 \/ Has(R, n) \/ o.res # "ok" \/ o.ret = "" THEN o ELSE [o EXCEPT !.reg.types[o.ret].size = size]
(* built step by step: pointers, major (outermost) and minor (innermost)     *)
(* dimensions, sizes                                                         *)
RECURSIVE DimsOf(_, _), Bottom(_, _)
DimsOf(R, t) == LET T == R.types[t] IN IF T.cat = "array" THEN Append(DimsOf(R, T.on), <<"a", T.dim>>) ELSE <<>>
Bottom(R, t) == LET T == R.types[t] IN IF T.cat = "array" THEN Bottom(R, T.on) ELSE t
BuilderStep(o, s) ==
  IF o.res # "ok" THEN o
  ELSE CASE s[1] = "p" -> ApplyMods(o.reg, o.ret, [i \in 1..s[2] |-> <<"p", 1>>])
         [] s[1] = "a" -> ApplyMods(o.reg, o.ret, <<<<"a", s[2]>>>>)
         [] s[1] = "m" -> ApplyMods(o.reg, Bottom(o.reg, o.ret), <<<<"a", s[2]>>>> \o DimsOf(o.reg, o.ret))
         [] OTHER -> [o EXCEPT !.reg.types[o.ret].size = s[2]]
RunBuilder(R, t, steps) == FoldLeft(BuilderStep, OkRet(R, t), steps)
(* by its name, which may be relative: whether it is registered or not *)
BuildFrom(R, n, size) ==
  LET pr == ParseDerived(n) IN
  IF pr = <<>> THEN Err("error", R)
  ELSE IF ~Has(R, pr[1]) THEN OkRet(R, <<pr[1], "", "">>)
  ELSE LET o == ApplyMods(R, Get(R, pr[1]), pr[2])
       IN IF o.res # "ok" THEN o
          ELSE OkRet(IF size = 0 THEN o.reg ELSE [o.reg EXCEPT !.types[o.ret].size = size], <<pr[1], Get(R, pr[1]), o.ret>>)
(* can the name be resolved, or built ?  "error" when it cannot be parsed *)
HasOrBuild(R, n) ==
  IF Has(R, n) THEN OkRet(R, TRUE)
  ELSE LET pr == ParseDerived(FullName(R, n)) IN
       IF pr = <<>> THEN Err("error", R) ELSE OkRet(R, Has(R, pr[1]))

CreateContainer(R, kind, t) ==
  CASE kind = "/std/vector" ->
         LET n == VectorName(t) IN
         IF Has(R, n) THEN IF R.types[Get(R, n)].cat = "container" THEN OkRet(R, Get(R, n)) ELSE Err("error", R)
         ELSE AddType(R, n, MkVector(t), "")
    [] kind = "/std/string" ->
         IF Has(R, "/std/string") THEN IF R.types[Get(R, "/std/string")].cat = "container" THEN OkRet(R, Get(R, "/std/string")) ELSE Err("error", R)
         ELSE LET R1 == IF Has(R, "/int8_t") THEN R
                        ELSE AddType(R, "/int8_t", [Blank EXCEPT !.cat = "numeric", !.size = 1, !.num = "sint"], "").reg
              IN AddType(R1, "/std/string", MkString(Get(R1, "/int8_t")), "")
    [] OTHER -> Err("UnknownContainer", R)

(* ------------------------------------------------------------- removal *)
RECURSIVE RDepClosure(_, _)
RDepClosure(R, S) == LET n == S \union {u \in DOMAIN R.types : Deps(R.types[u]) \cap S # {}} IN
                     IF n = S THEN S ELSE RDepClosure(R, n)
ReverseDepends(R, t) == RDepClosure(R, {t})
RemoveTypes(R, S) ==
  LET nm == Without(R.names, {n \in DOMAIN R.names : R.names[n].t \in S})
      kept == Without(R.rel, {x \in DOMAIN R.rel : R.rel[x] \in S})
  IN [R EXCEPT !.names = nm, !.types = Without(@, S), !.rel = kept @@ RelOf(nm, R.ns)]
RemoveAlias(R, n) ==
  IF n \notin DOMAIN R.names \/ ~IsAlias(R, n) THEN Err("error", R)
  ELSE Ok(Recalc([R EXCEPT !.names = Without(@, {n})]))
ClearAliases(R) == Ok(Recalc([R EXCEPT !.names = Without(@, {n \in DOMAIN @ : IsAlias(R, n)})]))
Clear(R) == Ok([Empty EXCEPT !.ns = R.ns])

(* ---------------------------------------------------------- comparison *)
(* Same(R1, a, R2, b, TRUE): same definition.  FALSE: a can be cast to b.    *)
(* Recursive types: what is being compared is assumed to hold.               *)
RECURSIVE Cmp(_, _, _, _, _, _)
Cmp(R1, a, R2, b, eq, asm) ==
  IF <<a, b>> \in asm THEN TRUE
  ELSE LET A == R1.types[a]
           B == R2.types[b]
           st == asm \union {<<a, b>>}
           base == A.size = B.size /\ A.cat = B.cat
       IN CASE A.cat \in {"null", "opaque"} -> base /\ a = b
            [] A.cat = "numeric"   -> base /\ A.num = B.num
            [] A.cat = "enum"      -> base /\ IF eq THEN A.vals = B.vals ELSE A.vals \subseteq B.vals
            [] A.cat = "pointer"   -> base /\ Cmp(R1, A.on, R2, B.on, eq, st)
            [] A.cat = "array"     -> base /\ A.dim = B.dim /\ Cmp(R1, A.on, R2, B.on, TRUE, IF eq THEN st ELSE {})
            [] A.cat = "container" -> base /\ A.kind = B.kind /\ Cmp(R1, A.on, R2, B.on, TRUE, IF eq THEN st ELSE {})
            [] A.cat = "compound"  -> /\ B.cat = "compound" /\ (eq => base)
                                      /\ Len(A.fields) = Len(B.fields)
                                      /\ \A i \in 1..Len(A.fields) : A.fields[i].n = B.fields[i].n /\ A.fields[i].off = B.fields[i].off
                                      /\ \A i \in 1..Len(A.fields) : Cmp(R1, A.fields[i].t, R2, B.fields[i].t, eq, st)
            [] OTHER -> FALSE
Same(R1, a, R2, b)    == Cmp(R1, a, R2, b, TRUE, {})
CanCast(R1, a, R2, b) == Cmp(R1, a, R2, b, FALSE, {})
SameRegistry(R1, R2)  == DOMAIN R1.names = DOMAIN R2.names
                         /\ \A n \in DOMAIN R1.names : Same(R1, R1.names[n].t, R2, R2.names[n].t)

(* ------------------------------------------------------------- metadata *)
MergeMeta(m1, m2) == [k \in DOMAIN m1 \union DOMAIN m2 |->
                        (IF k \in DOMAIN m1 THEN m1[k] ELSE {}) \union (IF k \in DOMAIN m2 THEN m2[k] ELSE {})]
FieldNamed(T, n) == LET c == {i \in 1..Len(T.fields) : T.fields[i].n = n} IN IF c = {} THEN 0 ELSE Min(c)
MergeTypeMeta(T, O) ==
  LET m == [T EXCEPT !.meta = MergeMeta(@, O.meta)] IN
  IF T.cat = "compound" /\ O.cat = "compound"
  THEN [m EXCEPT !.fields = [i \in 1..Len(@) |-> LET j == FieldNamed(O, @[i].n) IN
                               IF j = 0 THEN @[i] ELSE [@[i] EXCEPT !.m = MergeMeta(@, O.fields[j].m)]]]
  ELSE m
MergeMetaData(R, S) ==
  FoldSet(LAMBDA n, acc : IF n \notin DOMAIN acc.names THEN acc
                          ELSE LET t == acc.names[n].t IN [acc EXCEPT !.types[t] = MergeTypeMeta(@, S.types[S.names[n].t])],
          R, DOMAIN S.names)
SetSourceID(R, t, s) == IF t \notin DOMAIN R.names THEN R
                        ELSE [R EXCEPT !.names[t].s = s, !.types[R.names[t].t].meta = Put(@, "source_id", {s})]
CopySourceIDs(R, S) ==
  FoldSet(LAMBDA n, acc : IF n \notin DOMAIN acc.names \/ S.names[n].s = "" \/ acc.names[n].s # "" THEN acc
                          ELSE IF IsAlias(acc, n) THEN [acc EXCEPT !.names[n].s = S.names[n].s]
                          ELSE SetSourceID(acc, n, S.names[n].s),
          R, DOMAIN S.names)

(* ----------------------------------------------------------------- merge *)
MAcc(R) == [res |-> "ok", reg |-> R, m |-> <<>>]
RECURSIVE MergeType(_, _, _)
Unify(acc, S, t) == LET tt == acc.reg.names[t].t IN
                    IF Same(acc.reg, tt, S, t) THEN [acc EXCEPT !.m = Put(@, t, tt)]
                    ELSE [acc EXCEPT !.res = "DefinitionMismatch"]
MergeType(acc, S, t) ==
  IF acc.res # "ok" \/ t \in DOMAIN acc.m THEN acc
  ELSE IF t \in DOMAIN acc.reg.names THEN Unify(acc, S, t)
  ELSE LET T == S.types[t] IN
  IF T.cat \in Indirects THEN
     LET a == MergeType(acc, S, T.on) IN
     IF a.res # "ok" \/ t \in DOMAIN a.m THEN a
     ELSE IF t \in DOMAIN a.reg.names THEN Unify(a, S, t)
     ELSE LET on == a.m[T.on]
              N  == [Blank EXCEPT !.cat = T.cat, !.on = on, !.dim = T.dim, !.kind = T.kind,
                                  !.size = IF T.cat = "array" THEN T.dim * a.reg.types[on].size ELSE T.size]
              n  == DerivedName(T, on)
              o  == IF T.cat # "container" THEN AddType(a.reg, n, N, "")
                    ELSE LET c == CreateContainer(a.reg, T.kind, on) IN
                         IF c.res = "ok" THEN [c EXCEPT !.reg.types[c.ret].size = T.size] ELSE c
          IN [a EXCEPT !.res = o.res, !.reg = o.reg, !.m = IF o.res = "ok" THEN Put(@, t, o.ret) ELSE @]
  ELSE IF T.cat = "compound" THEN
     LET a == FoldLeft(LAMBDA x, f : MergeType(x, S, f.t), [acc EXCEPT !.m = Put(@, t, t)], T.fields)
     IN IF a.res # "ok" THEN a
        ELSE LET N == [T EXCEPT !.meta = <<>>,
                                !.fields = [i \in 1..Len(T.fields) |-> [n |-> T.fields[i].n, off |-> T.fields[i].off, m |-> <<>>, t |-> a.m[T.fields[i].t]]]]
                 o == AddType(a.reg, t, N, "")
             IN [a EXCEPT !.res = o.res, !.reg = o.reg]
  ELSE LET o == AddType(acc.reg, t, T, "") IN [acc EXCEPT !.res = o.res, !.reg = o.reg, !.m = Put(@, t, t)]

MergeAlias(o, S, n) ==
  IF o.res # "ok" THEN o
  ELSE LET e == S.names[n] IN
       IF Has(o.reg, n) THEN IF Same(o.reg, Get(o.reg, n), S, e.t) THEN o ELSE Err("DefinitionMismatch", o.reg)
       ELSE AliasPS(o.reg, e.t, n, e.p, e.s)
Primaries(S) == NSorted({n \in DOMAIN S.names : ~IsAlias(S, n)})
Aliases(S)   == NSorted({n \in DOMAIN S.names : IsAlias(S, n)})
Merge(R, S) ==
  LET a == FoldLeft(LAMBDA acc, t : MergeType(acc, S, t), MAcc(R), Primaries(S))
      b == FoldLeft(LAMBDA o, n : MergeAlias(o, S, n), [res |-> a.res, reg |-> a.reg, ret |-> ""], Aliases(S))
  IN IF b.res # "ok" THEN b ELSE Ok(MergeMetaData(CopySourceIDs(b.reg, S), S))

(* --------------------------------------------------------------- minimal *)
Minimal(S, name, aliases) ==
  IF ~Has(S, name) THEN Err("error", Empty)
  ELSE LET a == MergeType(MAcc(Empty), S, Get(S, name))
           b == FoldLeft(LAMBDA o, n : IF o.res # "ok" \/ ~aliases \/ ~Has(o.reg, S.names[n].t) THEN o
                                       ELSE AliasPS(o.reg, S.names[n].t, n, S.names[n].p, S.names[n].s),
                         [res |-> a.res, reg |-> a.reg, ret |-> ""], Aliases(S))
       IN IF b.res # "ok" THEN b ELSE Ok(MergeMetaData(CopySourceIDs(b.reg, S), S))
MinimalAuto(S, auto, keep) ==
  LET step(o, t) == IF o.res # "ok" THEN o
                    ELSE LET h == HasOrBuild(auto, t) IN
                         IF h.res # "ok" THEN Err(h.res, o.reg)
                         ELSE IF h.ret THEN o
                         ELSE LET a == MergeType(MAcc(o.reg), S, t) IN [res |-> a.res, reg |-> a.reg, ret |-> ""]
      astep(o, n) == IF o.res # "ok" THEN o
                     ELSE LET h == IF keep THEN OkRet(auto, FALSE) ELSE HasOrBuild(auto, n) IN
                          IF h.res # "ok" THEN Err(h.res, o.reg)
                          ELSE IF h.ret \/ ~Has(o.reg, S.names[n].t) THEN o
                          ELSE MergeAlias(o, S, n)
      b == FoldLeft(astep, FoldLeft(step, Ok(Empty), Primaries(S)), Aliases(S))
  IN IF b.res # "ok" THEN b ELSE Ok(MergeMetaData(CopySourceIDs(b.reg, S), S))

(* ---------------------------------------------------------------- resize *)
(* Types whose size is not given explicitly: arrays follow their elements,   *)
(* compounds are extended by the growth of their fields and the fields that  *)
(* follow a resized one are moved                                            *)
RECURSIVE NewSize(_, _, _)
Growth(R, sz, T, k) == FoldLeft(LAMBDA acc, f : acc + NewSize(R, sz, f.t) - R.types[f.t].size, 0, SubSeq(T.fields, 1, k))
NewSize(R, sz, t) ==
  IF t \in DOMAIN sz THEN sz[t]
  ELSE LET T == R.types[t] IN
       CASE T.cat = "array"    -> IF NewSize(R, sz, T.on) = R.types[T.on].size THEN T.size ELSE T.dim * NewSize(R, sz, T.on)
         [] T.cat = "compound" -> T.size + Growth(R, sz, T, Len(T.fields))
         [] OTHER -> T.size
Resize(R, req) ==      \* req: sequence of <<name, size>>
  IF \E i \in 1..Len(req) : ~Has(R, req[i][1]) THEN Err("Undefined", R)
  ELSE LET sz == [t \in {Get(R, req[i][1]) : i \in 1..Len(req)} |->
                    req[CHOOSE i \in 1..Len(req) : Get(R, req[i][1]) = t][2]]
           nt(t) == LET T == R.types[t] IN
                    IF t \in DOMAIN sz THEN [T EXCEPT !.size = sz[t]]
                    ELSE [T EXCEPT !.size = NewSize(R, sz, t),
                                   !.fields = [i \in 1..Len(@) |-> [@[i] EXCEPT !.off = @ + Growth(R, sz, T, i - 1)]]]
       IN Ok([R EXCEPT !.types = [t \in DOMAIN @ |-> nt(t)]])

(* ------------------------------------------------------------ invariants *)
(* Every name refers to a registered type, every type is registered under    *)
(* its own name, everything a type refers to is registered                   *)
Closed(R) == /\ \A n \in DOMAIN R.names : R.names[n].t \in DOMAIN R.types /\ IsAbsolute(n)
             /\ \A t \in DOMAIN R.types : t \in DOMAIN R.names /\ R.names[t].t = t /\ Deps(R.types[t]) \subseteq DOMAIN R.types
             /\ \A x \in DOMAIN R.rel : R.rel[x] \in DOMAIN R.types
(* derived types are built on their primary name, with a consistent size *)
WellFormed(R) == \A t \in DOMAIN R.types : LET T == R.types[t] IN
                    T.cat \in Indirects => t = DerivedName(T, T.on)
ValidNames(R) == \A n \in DOMAIN R.names : IsValidName(n, TRUE)
RelConsistent(R) == R.rel = RelOf(R.names, R.ns)
(* aliases of a type are found on the types derived from it *)
Propagated(R) == \A t \in DOMAIN R.types : Propagates(R.types[t]) =>
                    \A a \in AliasesOf(R, R.types[t].on) : Has(R, DerivedName(R.types[t], a))

(* A failed merge or import can only have added things *)
PartialOf(old, new) ==
  /\ \A n \in DOMAIN old.names : n \in DOMAIN new.names /\ new.names[n].t = old.names[n].t /\ new.names[n].p = old.names[n].p
  /\ \A t \in DOMAIN old.types : LET A == old.types[t] B == new.types[t] IN
        A.cat = B.cat /\ A.num = B.num /\ A.on = B.on /\ A.dim = B.dim /\ A.kind = B.kind /\ A.vals = B.vals
        /\ A.size = B.size
        /\ Len(A.fields) = Len(B.fields) /\ \A i \in 1..Len(A.fields) : A.fields[i].n = B.fields[i].n /\ A.fields[i].t = B.fields[i].t /\ A.fields[i].off = B.fields[i].off
  /\ Closed(new)
=============================================================================
