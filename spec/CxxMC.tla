------------------------------- MODULE CxxMC -------------------------------
(* Every header of a small universe: one declaration after the other is      *)
(* picked from the alternatives for it.  Checked on each: what the           *)
(* definitions of CxxImport promise, and that a parser's output resolved     *)
(* recursively, from any declaration first, gives the same set.              *)
EXTENDS CxxImport, Json, IOUtils
U == JsonDeserialize(IOEnv.UNIVERSE)
VARIABLES decls, hist
vars == <<decls, hist>>
View == decls
Complete == Len(decls) = U.count
E == [decls |-> decls, opaques |-> U.opaques, file |-> "/h.hh", lib |-> "/l.hh"]
Init == decls = U.start /\ hist = <<>>
Next == /\ ~Complete
        /\ \E i \in 1..Len(U.ops) : LET o == U.ops[i] IN
             /\ o.slot = Len(decls) + 1
             /\ decls' = Append(decls, o.decl)
             /\ hist' = Append(hist, i)
             /\ PrintT(<<"EDGE", hist, i, TRUE>>)
Spec == Init /\ [][Next]_vars

(* --------------------------------------------- resolution, one at a time *)
N == decls
None == [good |-> {}, bad |-> {}, empty |-> {}]
After(i, rep) == {i} \intersect (rep.good \union rep.bad \union rep.empty)
RECURSIVE Resolve(_, _, _), ResolveAll(_, _, _)
ResolveAll(q, pending, acc) == IF q = <<>> THEN acc ELSE ResolveAll(Tail(q), pending, Resolve(Head(q), pending, acc))
(* what i needs is resolved first; what is being resolved already cannot be used *)
Needs(i) ==
  LET x == N[i] IN
  IF OpaqueFor(E, i) # 0 THEN <<>>
  ELSE CASE x.k \in {"ptr", "arr", "cv", "typedef"} -> <<x.t>>
         [] x.k = "vec" -> <<x.of>>
         [] x.k = "rec" -> [k \in 1..Len(x.bases) |-> x.bases[k].t] \o [k \in 1..Len(x.fields) |-> x.fields[k].t]
         [] OTHER -> <<>>
Resolve(i, pending, acc) ==
  IF i \in pending \union acc.good \union acc.bad \union acc.empty THEN acc
  ELSE LET a == ResolveAll(Needs(i), pending \union {i}, acc) IN
       IF OkDecl(E, N, a.good, a.empty, i) THEN [a EXCEPT !.good = @ \union {i}]
       ELSE IF N[i].k = "rec" /\ OpaqueFor(E, i) = 0 /\ Basic(E, N, a.good, a.empty, i) /\ NoField(N, a.empty, i) THEN [a EXCEPT !.empty = @ \union {i}]
       ELSE [a EXCEPT !.bad = @ \union {i}]
Starting(first) == ResolveAll(<<first>> \o [i \in 1..Len(N) |-> i], {}, None)
Backwards == ResolveAll([i \in 1..Len(N) |-> Len(N) + 1 - i], {}, None)

(* -------------------------------------------------------------- invariants *)
rep == Rep(E)
InvOrder == Complete => /\ \A i \in 1..Len(N) : Starting(i).good = rep.s /\ Starting(i).empty = rep.e
                        /\ Backwards.good = rep.s /\ Backwards.empty = rep.e
RECURSIVE Below(_)
Below(S) == LET T == S \union UNION {SetOf(Needs(i)) : i \in S} IN IF T = S THEN S ELSE Below(T)
(* nothing that refers to itself, or to what cannot be represented, is representable *)
InvGrounded == Complete => /\ \A i \in rep.s : i \notin Below(SetOf(Needs(i))) /\ SetOf(Needs(i)) \subseteq rep.s \union rep.e
                           /\ rep.s \intersect rep.e = {}
Sound(X) == Closed(X) /\ WellFormed(X) /\ ValidNames(X)
All(e) == Defines(e, Rep(e), Rep(e).s)
InvSound == Complete => /\ Sound(CxxLeast(E)) /\ Sound(All(E))
                        /\ Opaques(E) \subseteq DOMAIN CxxLeast(E).types
                        /\ \A i \in rep.s : (Declared(N, i) /\ N[i].own /\ N[i].k # "typedef") => Denoted(E, N, i) \in DOMAIN CxxLeast(E).types
                        /\ DOMAIN CxxLeast(E).types \subseteq DOMAIN All(E).types
(* what is looked at besides does not change the rest; nor does what is declared in an included file *)
Part(X, Y) == /\ DOMAIN X.types \subseteq DOMAIN Y.types /\ DOMAIN X.names \subseteq DOMAIN Y.names
              /\ \A t \in DOMAIN X.types : [Y.types[t] EXCEPT !.meta = <<>>, !.fields = <<>>] = [X.types[t] EXCEPT !.meta = <<>>, !.fields = <<>>]
Foreign(i) == [E EXCEPT !.decls = [N EXCEPT ![i].own = FALSE]]
InvMonotone == Complete => /\ Part(CxxLeast(E), All(E))
                           /\ \A i \in {j \in 1..Len(N) : Declared(N, j) /\ N[j].own} : Part(CxxLeast(Foreign(i)), CxxLeast(E))
=============================================================================
