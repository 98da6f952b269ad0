--------------------------------- MODULE Idl ---------------------------------
(* Export to the CORBA Interface Definition Language: what has to be defined *)
(* for a registry and a configuration                                        *)
(*   [prefix, suffix : namespaces, any : opaques are exported as any,        *)
(*    blob : threshold, sel : names of the selected types]                   *)
(* and the reading of a document (lines: <<indentation, text>>).             *)
EXTENDS Tlb

(* ----------------------------------------------------------- identifiers *)
StripU(s) == IF Ch(s, 1) = "_" THEN From(s, 2) ELSE s
Alnum == Digits \union Lower \union Upper
RECURSIVE IdChar(_, _)
IdChar(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in Alnum THEN Ch(s, i) ELSE "_") \o IdChar(s, i + 1)
Ident(s) == StripU(IdChar(s, 1))
Path(ns, c) ==
  LET p == IF c.prefix = "" \/ IsAbsolute(c.prefix) THEN c.prefix ELSE "/" \o c.prefix
      t == Tokens(p \o ns \o c.suffix)
  IN [i \in 1..Len(t) |-> Ident(t[i])]
TypePath(n, c) == Path(GetNamespace(n), c)
RECURSIVE Scoped(_)
Scoped(p) == IF p = <<>> THEN "::" ELSE "::" \o Head(p) \o Scoped(Tail(p))

(* how a type is referred to: a builtin, or a name in a module.  back: what  *)
(* comes after the declared name                                             *)
NoId == [ok |-> FALSE, b |-> TRUE, path |-> <<>>, base |-> "", back |-> ""]
Builtin(s) == [NoId EXCEPT !.ok = TRUE, !.base = s]
Named(p, s) == [NoId EXCEPT !.ok = TRUE, !.b = FALSE, !.path = p, !.base = s]
IntNames == 1 :> "octet" @@ 2 :> "short" @@ 4 :> "long" @@ 8 :> "long long"
NumericId(n, T) ==
  IF n = "/bool" THEN Builtin("boolean")
  ELSE IF T.num = "float" THEN Builtin(IF T.size = 4 THEN "float" ELSE "double")
  ELSE IF T.size \notin DOMAIN IntNames THEN NoId
  ELSE Builtin((IF T.num = "uint" /\ T.size # 1 THEN "unsigned " ELSE "") \o IntNames[T.size])
RECURSIVE IdOf(_, _, _)
IdOf(R, c, t) ==
  LET T == R.types[t] IN
  CASE T.cat = "numeric" -> NumericId(t, T)
    [] T.cat = "opaque"  -> IF c.any THEN Builtin("any") ELSE NoId
    [] T.cat \in {"compound", "enum"} -> Named(TypePath(t, c), Ident(GetTypename(t)))
    [] T.cat = "array"   -> IF R.types[T.on].cat = "array" THEN NoId
                            ELSE [IdOf(R, c, T.on) EXCEPT !.back = "[" \o NatStr(T.dim) \o "]"]
    [] T.cat = "container" ->
         IF t = "/std/string" THEN Builtin("string")
         ELSE IF R.types[T.on].cat = "array" THEN NoId
         ELSE LET e == IdOf(R, c, T.on) IN
              IF ~e.ok THEN NoId
              ELSE Named(IF e.b THEN Path("/", c) ELSE e.path, Ident(GetTypename(T.kind) \o "_" \o T.on \o "_"))
    [] OTHER -> NoId
Ref(id) == IF id.b THEN id.base ELSE IF id.path = <<>> THEN "::" \o id.base ELSE Scoped(id.path) \o id.base
Decl(id, name) == Ref(id) \o " " \o StripU(name) \o id.back

(* ---------------------------------------------------- what is to be defined *)
Selected(c, t) == c.sel = {} \/ t \in c.sel
Blob(c, T) == c.blob > 0 /\ T.size > c.blob /\ T.cat \in {"compound", "enum", "opaque"}
RECURSIVE JoinComma(_)
JoinComma(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o ", " \o JoinComma(Tail(q))

(* outcomes: "none" nothing to define, "no" cannot be expressed, "def" *)
Nothing == [k |-> "none", path |-> <<>>, text |-> "", fields |-> <<>>]
Inexpressible == [Nothing EXCEPT !.k = "no"]
Def(p, x, f) == [k |-> "def", path |-> p, text |-> x, fields |-> f]
TypeDef(R, c, t) ==
  LET T == R.types[t] IN
  IF Blob(c, T) THEN Def(TypePath(t, c), "typedef sequence<octet> " \o Ident(GetTypename(t)) \o ";", <<>>)
  ELSE CASE T.cat = "numeric" -> Nothing
         [] T.cat = "enum" -> LET syms == LSorted({v[1] : v \in T.vals}) IN
                Def(TypePath(t, c), "enum " \o Ident(GetTypename(t)) \o " { " \o JoinComma([i \in 1..Len(syms) |-> StripU(syms[i])]) \o " };", <<>>)
         [] T.cat = "compound" ->
                IF \E i \in 1..Len(T.fields) : ~IdOf(R, c, T.fields[i].t).ok THEN Inexpressible
                ELSE Def(TypePath(t, c), "struct " \o Ident(GetTypename(t)),
                         [i \in 1..Len(T.fields) |-> Decl(IdOf(R, c, T.fields[i].t), T.fields[i].n) \o ";"])
         [] T.cat = "container" ->
                LET id == IdOf(R, c, t) IN
                IF t = "/std/string" THEN Nothing ELSE IF ~id.ok THEN Inexpressible
                ELSE Def(id.path, "typedef sequence<" \o Ref(IdOf(R, c, T.on)) \o "> " \o id.base \o ";", <<>>)
         [] T.cat = "opaque" -> IF c.any THEN Nothing ELSE Inexpressible
         [] OTHER -> Inexpressible
SameName(R, n) ==      \* "struct A" and A are the same thing
  LET t == R.names[n].t
      a == GetTypename(n)
      b == GetTypename(t)
  IN GetNamespace(t) = GetNamespace(n) /\ (\E k \in {"struct ", "enum "} : b = k \o a \/ a = k \o b)
NoTypedefName == {"/", "<", ">", " ", "*", "[", "]", ","}
(* sequences are defined by name already *)
Generated(R, c) == {t \in DOMAIN R.types : R.names[t].p /\ Selected(c, t) /\ R.types[t].cat = "container" /\ t # "/std/string"}
AliasDef(R, c, n) ==
  LET t == R.names[n].t
      T == R.types[t]
      p == TypePath(n, c)
      base == GetTypename(n)
      id == IF T.cat = "container" /\ t # "/std/string"
            THEN LET e == IdOf(R, c, T.on) IN
                 IF ~e.ok \/ R.types[T.on].cat = "array" THEN NoId ELSE Builtin("sequence<" \o Ref(e) \o ">")
            ELSE IdOf(R, c, t)
      reserved == {g \in Generated(R, c) : LET i == IdOf(R, c, g) IN i.ok /\ i.path = p /\ i.base = base}
  IN IF SameName(R, n) THEN Nothing
     ELSE IF T.cat = "pointer" \/ (T.cat = "array" /\ R.types[T.on].cat \in {"array", "pointer"}) THEN Inexpressible
     ELSE IF reserved # {} THEN IF reserved = {t} THEN Nothing ELSE Inexpressible
     ELSE IF \E i \in 1..Len(base) : Ch(base, i) \in NoTypedefName THEN Nothing
     ELSE IF ~id.ok THEN Inexpressible
     ELSE Def(p, "typedef " \o Decl(id, base) \o ";", <<>>)

Entries(R, c) == {n \in DOMAIN R.names : R.names[n].p /\ Selected(c, R.names[n].t)}
DefOf(R, c, n) == IF IsAlias(R, n) THEN AliasDef(R, c, n) ELSE TypeDef(R, c, n)
(* The types whose definitions are named by the definition of n *)
RECURSIVE NamedIn(_, _, _)
NamedIn(R, c, t) == CASE R.types[t].cat = "array" -> NamedIn(R, c, R.types[t].on)
                      [] R.types[t].cat \in {"compound", "enum"} \/ (R.types[t].cat = "container" /\ t # "/std/string") -> {t}
                      [] OTHER -> {}
Uses(R, c, n) ==
  LET t == R.names[n].t
      T == R.types[t]
  IN IF IsAlias(R, n) THEN IF T.cat = "container" THEN NamedIn(R, c, T.on) ELSE NamedIn(R, c, t)
     ELSE IF Blob(c, T) THEN {}
     ELSE UNION {NamedIn(R, c, d) : d \in Deps(T)}
Refused(R, c) == \E n \in Entries(R, c) : DefOf(R, c, n).k = "no"
Defined(R, c) == LET d == [n \in Entries(R, c) |-> DefOf(R, c, n)] IN [n \in {x \in DOMAIN d : d[x].k = "def"} |-> d[n]]

(* --------------------------------------------------------------- reading *)
(* state: path of open modules, the structure being read, definitions *)
EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Cut(s, a, b) == SubSeq(s, Len(a) + 1, Len(s) - Len(b))
Start == [ok |-> TRUE, path |-> <<>>, struct |-> FALSE, defs |-> <<>>, empty |-> FALSE]
Bad(a) == [a EXCEPT !.ok = FALSE]
ReadLine(a, ln) ==
  LET ind == ln[1]
      x   == ln[2]
      at  == ind = 4 * (Len(a.path) + IF a.struct THEN 1 ELSE 0)
      n   == Len(a.defs)
  IN IF ~a.ok THEN a
     ELSE IF x = "};" THEN
        IF ind # 4 * (Len(a.path) - IF a.struct THEN 0 ELSE 1) THEN Bad(a)
        ELSE IF a.struct THEN [a EXCEPT !.struct = FALSE]
        ELSE IF a.path = <<>> \/ a.empty THEN Bad(a) ELSE [a EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]
     ELSE IF ~at THEN Bad(a)
     ELSE IF a.struct THEN IF EndsWith(x, ";") THEN [a EXCEPT !.defs[n].fields = Append(@, x)] ELSE Bad(a)
     ELSE IF StartsWith("module ", x) /\ EndsWith(x, " {") THEN [a EXCEPT !.path = Append(@, Cut(x, "module ", " {")), !.empty = TRUE]
     ELSE IF StartsWith("struct ", x) /\ EndsWith(x, " {") THEN
        [a EXCEPT !.struct = TRUE, !.empty = FALSE, !.defs = Append(@, [path |-> a.path, text |-> Cut(x, "", " {"), fields |-> <<>>])]
     ELSE IF (StartsWith("enum ", x) \/ StartsWith("typedef ", x)) /\ EndsWith(x, ";")
     THEN [a EXCEPT !.empty = FALSE, !.defs = Append(@, [path |-> a.path, text |-> x, fields |-> <<>>])]
     ELSE Bad(a)
Read(lines) == LET a == FoldLeft(ReadLine, Start, lines) IN [a EXCEPT !.ok = @ /\ ~a.struct /\ a.path = <<>>]

Plain(d) == [path |-> d.path, text |-> d.text, fields |-> d.fields]
(* The document defines what has to be, once, after what it uses *)
IdlComplete(R, c, defs) ==
  LET D == Defined(R, c) IN
  /\ Len(defs) = Cardinality(DOMAIN D)
  /\ {defs[i] : i \in 1..Len(defs)} = {Plain(D[n]) : n \in DOMAIN D}
IdlOrdered(R, c, defs) ==
  LET D == Defined(R, c)
      pos(n) == CHOOSE i \in 1..Len(defs) : defs[i] = Plain(D[n])
  IN \A n \in DOMAIN D : \A u \in Uses(R, c, n) \ {n} : u \in DOMAIN D => pos(u) < pos(n)
=============================================================================
