------------------------------ MODULE NamesTrace ------------------------------
(* Traces of the functions on names: each call gives what Names.tla says.    *)
EXTENDS Names, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Is(x) == x = TRUE
SetOf(q) == {q[i] : i \in 1..Len(q)}
Expl == "EXPLAIN" \in DOMAIN IOEnv
Eq(what, x, y) == IF x = y THEN TRUE ELSE IF Expl THEN PrintT(<<"MISMATCH", what, "specified", x, "observed", y>>) /\ FALSE ELSE FALSE
RECURSIVE Ext(_, _, _)
Ext(S, cs, n) == IF n = 0 THEN S ELSE Ext({x \o k : x \in S, k \in cs}, cs, n - 1)
Strings(e) == IF e.op = "list" THEN SetOf(e.q) ELSE Ext({e.prefix}, SetOf(e.chars), e.n)
Described(x) == <<x, Split(x), GetTypename(x), GetNamespace(x), IsAbsolute(x)>>
Step(e) ==
  /\ Eq("outcome", "ok", e.res)
  /\ CASE e.op \in {"enum", "list"} ->
            LET S == Strings(e)
                vr == {x \in S : IsValidName(x, FALSE)}
                nr == {x \in S : IsValidNS(x, FALSE)} IN
            /\ Eq("valid names", {x \in S : IsValidName(x, TRUE)}, SetOf(e.out.va))
            /\ Eq("valid relative names", {Described(x) : x \in vr}, SetOf(e.out.vr))
            /\ Eq("valid namespaces", {x \in nr : IsValidNS(x, TRUE)}, SetOf(e.out.na))
            /\ Eq("valid relative namespaces", nr, SetOf(e.out.nr))
            /\ \A i \in 1..Len(e.out.nr) : Eq("normalized", NormNS(e.out.nr[i]), e.out.norm[i])
       [] e.op = "sort" ->
            \A i \in 1..Len(e.q) : \A j \in 1..Len(e.q) :
               Eq(<<"order", e.q[i], e.q[j]>>, NameSort(e.q[i], e.q[j]), Ch(e.out[i], j) = "1")
       [] e.op = "paths" ->
            /\ Eq("pairs", Len(e.q) * Len(e.ns), Len(e.out))
            /\ \A k \in 1..Len(e.out) : LET x == e.out[k] in == InNS(x[1], x[2], TRUE) IN
                 Eq("path", <<x[1], x[2], InNS(x[1], x[2], FALSE), in, IF in THEN RelName(x[1], x[2]) ELSE "", MinPath(x[1], x[2])>>, x)
       [] OTHER -> TRUE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Is(Step(Trace[l]))
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
