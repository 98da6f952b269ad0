------------------------------ MODULE RegistryMC ------------------------------
(* Exhaustive exploration of a small universe of calls (read from a JSON     *)
(* file, so that the very same calls are then replayed on the implementation *)
(* along every transition found here).                                       *)
EXTENDS RegistryOps, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)      \* [ops, prefix, depth]
VARIABLES regs, hist, dead
vars == <<regs, hist, dead>>
View == <<regs, dead>>

RECURSIVE RunAll(_, _)
RunAll(rs, q) == IF q = <<>> THEN rs ELSE RunAll(Apply(rs, Head(q)).regs, Tail(q))
Init == regs = RunAll([i \in 1..3 |-> Empty], U.prefix) /\ hist = <<>> /\ dead = FALSE
Next == /\ ~dead /\ Len(hist) < U.depth
        /\ \E i \in 1..Len(U.ops) :
             LET a == Apply(regs, U.ops[i]) IN
             /\ regs' = IF a.partial THEN regs ELSE a.regs
             /\ dead' = a.partial
             /\ hist' = Append(hist, i)
             /\ PrintT(<<"EDGE", hist, i, regs' # regs \/ a.partial>>)
Spec == Init /\ [][Next]_vars

InvClosed     == \A i \in 1..3 : Closed(regs[i]) /\ WellFormed(regs[i]) /\ ValidNames(regs[i])
InvResolution == \A i \in 1..3 : RelConsistent(regs[i])
All == {<<i, t>> : i \in 1..3, t \in UNION {DOMAIN regs[j].types : j \in 1..3}}
Typs == {x \in All : x[2] \in DOMAIN regs[x[1]].types}
SameT(x, y) == Same(regs[x[1]], x[2], regs[y[1]], y[2])
CastT(x, y) == CanCast(regs[x[1]], x[2], regs[y[1]], y[2])
InvEquivalence ==
  LET same == {p \in Typs \X Typs : SameT(p[1], p[2])}
      cast == {p \in Typs \X Typs : CastT(p[1], p[2])} IN
  /\ \A x \in Typs : <<x, x>> \in same
  /\ \A p \in same : <<p[2], p[1]>> \in same /\ p \in cast
  /\ \A p \in same : \A y \in Typs : <<p[2], y>> \in same => <<p[1], y>> \in same
  /\ \A p \in cast : \A y \in Typs : <<p[2], y>> \in cast => <<p[1], y>> \in cast
(* merging is idempotent and gives the definitions of the merged registry *)
InvMerge == \A i, j \in 1..2 : LET o == Merge(regs[i], regs[j]) IN
   o.res = "ok" => /\ Closed(o.reg)
                   /\ \A n \in DOMAIN regs[i].names : n \in DOMAIN o.reg.names /\ o.reg.names[n].t = regs[i].names[n].t
                   /\ \A n \in DOMAIN regs[j].names : n \in DOMAIN o.reg.names /\ Same(o.reg, o.reg.names[n].t, regs[j], regs[j].names[n].t)
                   /\ Merge(o.reg, regs[j]).res = "ok" /\ DOMAIN Merge(o.reg, regs[j]).reg.names = DOMAIN o.reg.names
InvMergeOrder == LET a == Merge(regs[1], regs[2]) b == Merge(regs[2], regs[1]) IN
   (a.res = "ok" /\ b.res = "ok") => SameRegistry(a.reg, b.reg) \/ DOMAIN a.reg.names # DOMAIN b.reg.names
InvMinimal == \A n \in DOMAIN regs[1].names : LET o == Minimal(regs[1], n, TRUE) IN
   o.res = "ok" /\ Closed(o.reg)
   /\ DOMAIN o.reg.types = DepClosure(regs[1], {regs[1].names[n].t})
   /\ (\A x \in DOMAIN o.reg.names : x \in DOMAIN regs[1].names => Same(o.reg, o.reg.names[x].t, regs[1], regs[1].names[x].t))
   /\ (\A y \in DOMAIN regs[1].names : regs[1].names[y].t \in DOMAIN o.reg.types => y \in DOMAIN o.reg.names)
InvRemove == \A t \in DOMAIN regs[1].types :
   LET D == ReverseDepends(regs[1], t) R2 == RemoveTypes(regs[1], D) IN
   /\ Closed(R2) /\ RelConsistent(R2)
   /\ \A u \in DOMAIN R2.types : t \notin DepClosure(R2, {u})
   /\ \A u \in D : t \in DepClosure(regs[1], {u})
InvRoundTrip == \A i \in 1..2 : ~HasCycle(regs[i]) => LET o == RoundTrip(regs[i]) IN o.res = "ok" /\ Closed(o.reg) /\ Preserved(regs[i], o.reg)
InvPropagated == Propagated(regs[1])
=============================================================================
