------------------------------ MODULE CxxTrace ------------------------------
(* Trace validation for imports of C++ declarations: the registry that they  *)
(* give, and what is done with it afterwards.                                *)
EXTENDS RubyTrace, CxxImport

(* what is known of C++'s own types (where their typedef is, for instance) is *)
(* not specified; nor whether opaques that included files declare are looked at *)
Elsewhere(e) == {FullOf(e.decls, i) : i \in {j \in 1..Len(e.decls) : IsOpaque(e, j) /\ ~e.decls[j].own}}
OwnMeta(e, X, st) ==
  LET shown(t) == ParseType(st.types[CHOOSE i \in 1..Len(st.types) : st.types[i].n = t]).meta
      S == {t \in DOMAIN X.types \intersect {st.types[i].n : i \in 1..Len(st.types)} :
              Bottom2(X, t) \in Predef \/ (t \in Elsewhere(e) /\ shown(t) = <<>>)}
  IN [X EXCEPT !.types = [t \in DOMAIN @ |-> IF t \in S THEN [@[t] EXCEPT !.meta = shown(t)] ELSE @[t]]]
Imports(e) ==
  LET st == e.st[e.d]
      X == OwnMeta(e, CxxImported(e, {st.types[i].n : i \in 1..Len(st.types)}, {st.names[i][1] : i \in 1..Len(st.names)}), st)
  IN /\ Is(/\ Eq("outcome", "ok", e.res)
           /\ Matches(X, st, Pr(e)) /\ Others(e, e.d)
           /\ Chk(Closed(X) /\ WellFormed(X) /\ ValidNames(X), "invariant", X, ""))
     /\ regs' = [regs EXCEPT ![e.d] = X]
CNext == /\ l <= Len(Trace)
         /\ IF Trace[l].op = "cximp"
            THEN l' = l + 1 /\ Imports(Trace[l]) /\ probes' = Pr(Trace[l])
            ELSE Next
CSpec == Init /\ [][CNext]_vars
=============================================================================
