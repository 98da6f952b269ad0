----------------------------- MODULE ConfigSetTrace -----------------------------
(* Traces of configuration sets.                                             *)
EXTENDS ConfigSet, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sets, keys
Is(x) == x = TRUE
Expl == "EXPLAIN" \in DOMAIN IOEnv
Eq(what, x, y) == IF x = y THEN TRUE ELSE IF Expl THEN PrintT(<<"MISMATCH", what, "specified", x, "observed", y>>) /\ FALSE ELSE FALSE
In(what, x, y) == IF y \in x THEN TRUE ELSE IF Expl THEN PrintT(<<"MISMATCH", what, "specified", x, "observed", y>>) /\ FALSE ELSE FALSE
Matches(E, K, e) ==
  /\ Eq("live sets", DOMAIN E, {e.obs[i][1] : i \in 1..Len(e.obs)})
  /\ \A i \in 1..Len(e.obs) : LET o == e.obs[i] C == E[o[1]] IN
       (* a parent that was destroyed is not looked at any more *)
       /\ (C.p \in DOMAIN E \cup {0} => Eq(<<"parent", o[1]>>, <<C.p, C.p>>, <<o[2], o[3]>>))
       /\ Eq(<<"empty", o[1]>>, C.vals = <<>> /\ C.kids = <<>>, o[4])
       /\ \A n \in 1..Len(K) : Eq(<<"set", o[1], "key", K[n]>>, SeenKey(C, K[n]), o[5][n])
Keys(e) == IF e.op = "reset" THEN <<>> ELSE IF e.op = "keys" THEN e.keys ELSE keys
Step(e) ==
  LET E == Apply(sets, e) K == Keys(e) IN
  /\ Enabled(sets, e)
  /\ In("outcome", Outcomes(sets, e), <<e.res, e.out>>)
  /\ Matches(E, K, e)
  /\ Eq("unreleased blocks", 0, e.left)
Init == l = 1 /\ sets = NoSets /\ keys = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Is(Step(Trace[l]))
        /\ LET e == Trace[l] E == Apply(sets, e) IN
           (* a set whose parent is gone has one that no longer exists: -1   *)
           /\ sets' = [i \in DOMAIN E |-> IF E[i].p # 0 /\ E[i].p \notin DOMAIN E THEN [E[i] EXCEPT !.p = -1] ELSE E[i]]
           /\ keys' = Keys(e)
Spec == Init /\ [][Next]_<<l, sets, keys>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
