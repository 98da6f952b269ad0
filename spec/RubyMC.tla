-------------------------------- MODULE RubyMC --------------------------------
(* Exhaustive exploration of small universes of Ruby calls: the invariants   *)
(* of the registry hold whatever the history of Ruby calls, failed ones      *)
(* included.                                                                 *)
EXTENDS RegistryMC, RubyOps
RECURSIVE RbRunAll(_, _)
RbRunAll(rs, q) == IF q = <<>> THEN rs ELSE RbRunAll(RbApply(rs, Head(q)).regs, Tail(q))
RbInit == regs = RbRunAll([i \in 1..3 |-> Empty], U.prefix) /\ hist = <<>> /\ dead = FALSE
RbNext == /\ ~dead /\ Len(hist) < U.depth
          /\ \E i \in 1..Len(U.ops) :
               LET a == RbApply(regs, U.ops[i]) IN
               /\ regs' = IF a.partial THEN regs ELSE a.regs
               /\ dead' = a.partial
               /\ hist' = Append(hist, i)
               /\ PrintT(<<"EDGE", hist, i, regs' # regs \/ a.partial>>)
(* Every name is reached through the constants of its namespaces.            *)
InvExport ==
  \A r \in 1..3 : LET R == regs[r] IN
    \A n \in DOMAIN R.types :
      LET q == Split(From(n, 2))
          x == Resolve(R, [op |-> "export"], "/", [i \in 1..Len(q) |-> <<q[i]>>], "mod")
      IN x.res = "any" \/ x = [res |-> "ok", ret |-> ExportAs(R, Get(R, n), [op |-> "export"])]
=============================================================================
