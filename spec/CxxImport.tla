------------------------------ MODULE CxxImport ------------------------------
(* What importing C++ declarations defines.                                  *)
(*                                                                           *)
(* A header is a sequence of declarations, as a C++ parser reports them, that*)
(* refer to each other by index.  "own" are those of the header itself, the  *)
(* others come from what it includes.                                        *)
(*   ns n ctx | fund n | ptr t | arr t dim (-1: unknown) | cv t | other      *)
(*   str (std::string's class) | vec of (std::vector<of>)                    *)
(*   rec n args ctx size fields bases acc inc virt                           *)
(*   enum n ctx vals acc | typedef n ctx t acc                               *)
(* Definitions that Typelib cannot represent are left out, and with them     *)
(* what depends on them: representable is the least set closed under Ok, so  *)
(* that types that refer to themselves are not.  What is imported does not   *)
(* depend on the order of the declarations.                                  *)
EXTENDS RegistryOps

Std == AddStandardTypes(Empty).reg
Predef == DOMAIN Std.types
Fd(x, k, d) == IF k \in DOMAIN x THEN x[k] ELSE d

(* ---------------------------------------------------------------- names *)
RECURSIVE CNamed(_, _), FullOf(_, _), Denoted(_, _, _), ArgText(_, _), ArgList(_, _), CxxOf(_, _)
CNamed(N, i) == i = 0 \/ (N[i].n # "" /\ CNamed(N, N[i].ctx))
ArgText(N, a) == IF "i" \in DOMAIN a THEN a.i
                 ELSE IF N[a.t].k = "fund" THEN Get(Std, "/" \o N[a.t].n)
                 ELSE IF N[a.t].k = "str" THEN "/std/string"
                 ELSE IF N[a.t].k = "vec" THEN VectorName(ArgText(N, [t |-> N[a.t].of]))
                 ELSE FullOf(N, a.t)
ArgList(N, q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ArgText(N, q[1]) ELSE ArgText(N, q[1]) \o "," \o ArgList(N, Tail(q))
FullOf(N, i) ==
  IF i = 0 THEN ""
  ELSE LET a == Fd(N[i], "args", <<>>) IN
       FullOf(N, N[i].ctx) \o "/" \o N[i].n \o (IF a = <<>> THEN "" ELSE "<" \o ArgList(N, a) \o ">")
CxxOf(N, i) == IF i = 0 THEN "" ELSE CxxOf(N, N[i].ctx) \o "::" \o N[i].cx
Declared(N, i) == N[i].k \in {"rec", "enum", "typedef"}
IsOpaque(e, i) == Declared(e.decls, i) /\ CNamed(e.decls, i) /\ FullOf(e.decls, i) \in SetOf(e.opaques)
(* an opaque that is a typedef stands for the type it is a typedef of *)
OpaqueFor(e, i) == LET N == e.decls
                       S == {j \in 1..Len(N) : N[j].k = "typedef" /\ N[j].t = i /\ IsOpaque(e, j)}
                   IN IF IsOpaque(e, i) THEN i ELSE IF Declared(N, i) /\ S # {} THEN CHOOSE j \in S : TRUE ELSE 0
(* the type a declaration stands for *)
Denoted(e, N, i) ==
  LET o == OpaqueFor(e, i) IN
  CASE o # 0 -> FullOf(N, o)
    [] N[i].k = "fund" -> Get(Std, "/" \o N[i].n)
    [] N[i].k = "str" -> "/std/string"
    [] N[i].k = "vec" -> VectorName(Denoted(e, N, N[i].of))
    [] N[i].k = "ptr" -> PointerName(Denoted(e, N, N[i].t))
    [] N[i].k = "arr" -> ArrayName(Denoted(e, N, N[i].t), N[i].dim)
    [] N[i].k \in {"cv", "typedef"} -> Denoted(e, N, N[i].t)
    [] OTHER -> FullOf(N, i)

(* -------------------------------------------------------- representable *)
Public(x) == Fd(x, "acc", "public") = "public"
Hidden(n) == StartsWith("__", n)
(* what can be said of a class besides its fields, given what is known to be representable (S) *)
Basic(e, N, S, E, i) ==
  /\ CNamed(N, i) /\ (~Hidden(N[i].n) \/ Fd(N[i], "args", <<>>) # <<>>) /\ Public(N[i])
  /\ ~Fd(N[i], "inc", FALSE) /\ ~Fd(N[i], "virt", FALSE)
  /\ \A k \in 1..Len(N[i].bases) : LET b == N[i].bases[k] IN b.t \in E \/ (b.t \in S /\ ~Fd(b, "virt", FALSE) /\ Public(b) /\ OpaqueFor(e, b.t) = 0)
NoField(N, E, i) == N[i].fields = <<>> /\ \A k \in 1..Len(N[i].bases) : N[i].bases[k].t \in E
OkDecl(e, N, S, E, i) ==
  LET x == N[i] IN
  CASE OpaqueFor(e, i) # 0 -> TRUE
    [] x.k = "fund" -> Has(Std, "/" \o x.n)
    [] x.k = "str" -> TRUE
    [] x.k = "vec" -> x.of \in S /\ N[x.of].k \in {"fund", "str", "vec", "rec", "enum"}
    [] x.k \in {"ptr", "cv"} -> x.t \in S
    [] x.k = "arr" -> x.t \in S /\ x.dim >= 0
    [] x.k = "typedef" -> x.t \in S /\ CNamed(N, i) /\ Public(x)
    [] x.k = "enum" -> CNamed(N, i) /\ Public(x) /\ ~Hidden(x.n)
    [] x.k = "rec" -> /\ Basic(e, N, S, E, i) /\ ~NoField(N, E, i)
                      /\ \A k \in 1..Len(x.fields) : Public(x.fields[k]) /\ x.fields[k].t \in S
    [] OTHER -> FALSE
(* S: representable; E: classes without any field, which can only be bases *)
RECURSIVE LeastRep(_, _, _, _)
LeastRep(e, N, S, E) ==
  LET S2 == {i \in 1..Len(N) : OkDecl(e, N, S, E, i)}
      E2 == {i \in 1..Len(N) : N[i].k = "rec" /\ OpaqueFor(e, i) = 0 /\ Basic(e, N, S, E, i) /\ NoField(N, E, i)}
  IN IF S2 = S /\ E2 = E THEN [s |-> S, e |-> E] ELSE LeastRep(e, N, S2, E2)
Rep(e) == LeastRep(e, e.decls, {}, {})

(* --------------------------------------------------- what has to be there *)
RefsOf(e, N, i, E) ==
  LET x == N[i] IN
  IF OpaqueFor(e, i) # 0 THEN {}
  ELSE CASE x.k \in {"ptr", "arr", "cv", "typedef"} -> {x.t}
         [] x.k = "vec" -> {x.of}
         [] x.k = "rec" -> {x.fields[k].t : k \in 1..Len(x.fields)} \union {x.bases[k].t : k \in {j \in 1..Len(x.bases) : x.bases[j].t \notin E}}
         [] OTHER -> {}
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(e, N, E, S) == LET T == S \union UNION {RefsOf(e, N, i, E) : i \in S} IN IF T = S THEN S ELSE ReachFrom(e, N, E, T)
Reached(e, rep) == ReachFrom(e, e.decls, rep.e, {i \in rep.s : Declared(e.decls, i) /\ e.decls[i].own})
Opaques(e) == SetOf(e.opaques)
TypesOf(e, D) == {Denoted(e, e.decls, i) : i \in {j \in D : e.decls[j].k \notin {"cv", "typedef"}}} \ Predef
TypedefsOf(e, D, types) ==
  {i \in D : LET N == e.decls IN
             /\ N[i].k = "typedef" /\ ~Hidden(N[i].n) /\ OpaqueFor(e, i) # i
             /\ FullOf(N, i) # Denoted(e, N, i) /\ FullOf(N, i) \notin Predef
             /\ Denoted(e, N, i) \in types}

(* -------------------------------------------------------------- metadata *)
DocMeta(x) == LET D == Fd(x, "doc", "")
                  M == Fd(x, "dm", <<>>)
                  K == {M[i][1] : i \in 1..Len(M)}
              IN (IF D = "" THEN <<>> ELSE "doc" :> {D}) @@ [k \in K |-> {M[i][2] : i \in {j \in 1..Len(M) : M[j][1] = k}}]
FileOf(e, x) == IF Fd(x, "own", TRUE) THEN e.file ELSE e.lib
Located(e, f, x) == ("source_file_line" :> {f \o ":" \o IntStr(x.line)}) @@ (IF f = e.file THEN DocMeta(x) ELSE <<>>)
Merged(m1, m2) == [k \in DOMAIN m1 \union DOMAIN m2 |-> (IF k \in DOMAIN m1 THEN m1[k] ELSE {}) \union (IF k \in DOMAIN m2 THEN m2[k] ELSE {})]
Cxx(n) == "cxxname" :> {n}
OpaqueMeta(e, n) ==
  LET N == e.decls
      S == {i \in 1..Len(N) : Declared(N, i) /\ CNamed(N, i) /\ FullOf(N, i) = n}
      i == CHOOSE i \in S : TRUE
  IN IF S = {} THEN <<>>
     ELSE (IF N[i].k = "typedef" THEN "opaque_is_typedef" :> {"1"} ELSE <<>>) @@ Cxx(CxxOf(N, i)) @@ Located(e, FileOf(e, N[i]), N[i])
RECURSIVE Bottom2(_, _)
Bottom2(R, t) == IF R.types[t].cat \in {"array", "pointer"} THEN Bottom2(R, R.types[t].on) ELSE t

(* ------------------------------------------------------------ definitions *)
Shift(fs, by) == [k \in 1..Len(fs) |-> [fs[k] EXCEPT !.off = @ + by]]
RECURSIVE FieldsOf(_, _, _)
FieldsOf(e, E, i) ==
  LET N == e.decls
      x == N[i]
      inherited == FoldLeft(LAMBDA q, b : IF b.t \in E THEN q ELSE q \o Shift(FieldsOf(e, E, b.t), Fd(b, "off", 0)), <<>>, x.bases)
  IN inherited \o [k \in 1..Len(x.fields) |-> LET f == x.fields[k] IN
                     [n |-> f.n, t |-> Denoted(e, N, f.t), off |-> f.off, m |-> Located(e, FileOf(e, x), f)]]
CTypeDef(e, E, i) ==
  LET N == e.decls
      x == N[i]
      d(j) == Denoted(e, N, j)
      B == {d(x.bases[k].t) : k \in {j \in 1..Len(x.bases) : x.bases[j].t \notin E}}
  IN CASE x.k = "vec" -> [MkVector(d(x.of)) EXCEPT !.meta = Cxx("::std::" \o x.cx) @@ Located(e, e.lib, x)]
       [] x.k = "ptr" -> MkPointer(d(x.t))
       [] x.k = "arr" -> [Blank EXCEPT !.cat = "array", !.on = d(x.t), !.dim = x.dim]
       [] x.k = "enum" -> [Blank EXCEPT !.cat = "enum", !.size = 4, !.vals = SetOf(x.vals), !.meta = Cxx(CxxOf(N, i)) @@ Located(e, FileOf(e, x), x)]
       [] OTHER -> [Blank EXCEPT !.cat = "compound", !.size = x.size, !.fields = FieldsOf(e, E, i),
                                 !.meta = (IF B = {} THEN <<>> ELSE "base_classes" :> B) @@ Cxx(CxxOf(N, i)) @@ Located(e, FileOf(e, x), x)]
Definition(e, rep, t) ==
  IF t \in Opaques(e) THEN [Blank EXCEPT !.cat = "opaque", !.meta = OpaqueMeta(e, t)]
  ELSE IF t \in Predef THEN Std.types[t]
  ELSE CTypeDef(e, rep.e, CHOOSE i \in rep.s : e.decls[i].k \notin {"cv", "typedef", "fund", "str"} /\ Denoted(e, e.decls, i) = t)
(* types are added after what they depend on: the size and the C++ name of an array or a pointer follow from it *)
CxxName(R, t) == IF "cxxname" \in DOMAIN R.types[t].meta THEN CHOOSE c \in R.types[t].meta["cxxname"] : TRUE ELSE ""
Completed(R, T) ==
  LET c == CxxName(R, T.on)
      m == IF c = "" THEN <<>> ELSE Cxx(c \o (IF T.cat = "pointer" THEN "*" ELSE "[" \o IntStr(T.dim) \o "]"))
  IN CASE T.cat = "array"   -> [T EXCEPT !.size = T.dim * R.types[T.on].size, !.meta = m]
       [] T.cat = "pointer" -> [T EXCEPT !.meta = m]
       [] OTHER -> T
RECURSIVE AddAll(_, _)
AddAll(R, D) ==      \* D: name -> definition
  IF D = <<>> THEN R
  ELSE LET now == {t \in DOMAIN D : Deps(D[t]) \subseteq DOMAIN R.types} IN
       AddAll(FoldSet(LAMBDA t, acc : AddType(acc, t, Completed(R, D[t]), "").reg, R, now), Without(D, now))
RECURSIVE ClosedTypes(_, _, _)
ClosedTypes(e, rep, T) == LET T2 == T \union UNION {Deps(Definition(e, rep, t)) : t \in T} IN IF T2 = T THEN T ELSE ClosedTypes(e, rep, T2)
(* what the declarations D (and what they need) define *)
Defines(e, rep, D) ==
  LET T == ClosedTypes(e, rep, TypesOf(e, D) \union Opaques(e))
      R == AddAll(Empty, [t \in T |-> Definition(e, rep, t)])
  IN FoldSet(LAMBDA i, acc : Alias(acc, Denoted(e, e.decls, i), FullOf(e.decls, i), "").reg, R, TypedefsOf(e, D, T))
(* Besides what the header needs, definitions of what it includes, and that  *)
(* were looked at, can be there: shown, the declarations that have been.     *)
Shows(e, rep, shownTypes, shownNames) ==
  {i \in rep.s : LET d == Denoted(e, e.decls, i) IN
                 IF e.decls[i].k = "typedef" THEN FullOf(e.decls, i) \in shownNames
                 ELSE e.decls[i].k # "cv" /\ d \in shownTypes}
CxxImported(e, shownTypes, shownNames) ==
  LET rep == Rep(e) IN Defines(e, rep, Reached(e, rep) \union Shows(e, rep, shownTypes, shownNames))
CxxLeast(e) == LET rep == Rep(e) IN Defines(e, rep, Reached(e, rep))
=============================================================================
