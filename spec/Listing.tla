------------------------------- MODULE Listing -------------------------------
(* The text listings: Registry::dump and the display of a single type.       *)
EXTENDS Tlb

RECURSIVE Show(_, _, _)
RECURSIVE ShowFields(_, _, _, _)
RECURSIVE ShowSymbols(_)
ShowSymbols(q) == IF q = <<>> THEN "" ELSE "\n    " \o q[1][1] \o " -> " \o ToString(q[1][2]) \o ShowSymbols(Tail(q))
ShowFields(R, T, ind, i) ==
  IF i > Len(T.fields) THEN ""
  ELSE LET f == T.fields[i] IN
       ind \o "(+" \o ToString(f.off) \o ") " \o Show(R, f.t, ind) \o " " \o f.n \o "\n" \o ShowFields(R, T, ind, i + 1)
Show(R, t, ind) ==
  LET T == R.types[t] IN
  CASE T.cat = "null"     -> "null\n"
    [] T.cat = "opaque"   -> "opaque " \o t \o "\n"
    [] T.cat = "numeric"  -> T.num \o "(" \o ToString(T.size) \o ") (" \o t \o ")"
    [] T.cat = "enum"     -> "enum " \o t \o ShowSymbols(SetToSortedSeq(T.vals))
    [] T.cat = "pointer"  -> "pointer on " \o T.on \o "\n"
    [] T.cat = "array"    -> "array[" \o ToString(T.dim) \o "] of\n" \o ind \o "  " \o Show(R, T.on, ind \o "  ")
    [] T.cat = "container" -> "container " \o T.kind \o "<" \o T.on \o ">"
    [] OTHER -> "compound " \o t \o " [" \o ToString(T.size) \o "] {\n" \o ShowFields(R, T, ind \o "  ", 1) \o ind \o "};"

Listed(R, flt) == {n \in DOMAIN R.names : R.names[n].p /\ (flt = "*" \/ R.names[n].s = flt)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ NameSort(x, y) IN <<m>> \o Sorted(S \ {m})
Header(flt) == "Types in registry" \o (IF flt = "" THEN " not defined in any type library"
                                       ELSE IF flt = "*" THEN "" ELSE " defined in " \o flt) \o "\n"
(* mode: all - complete definitions, src - preceded by their source *)
Line(R, n, all, src) ==
  LET e == R.names[n] IN
  (IF ~src THEN "" ELSE IF e.s = "" THEN "\t\t" ELSE e.s \o "\t")
  \o (IF ~all THEN "\t" \o n \o "\n"
      ELSE IF e.t = n THEN Show(R, n, "") \o "\n"
      ELSE n \o " is an alias for " \o e.t \o "\n")
RECURSIVE Lines(_, _, _, _)
Lines(R, q, all, src) == IF q = <<>> THEN "" ELSE Line(R, Head(q), all, src) \o Lines(R, Tail(q), all, src)
Dump(R, all, src, flt) == Header(flt) \o Lines(R, Sorted(Listed(R, flt)), all, src)
=============================================================================
