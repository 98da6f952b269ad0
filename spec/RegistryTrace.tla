---------------------------- MODULE RegistryTrace ----------------------------
(* Trace validation: every line of the trace is one call of the public API   *)
(* with its arguments, its outcome and the projection of the three registries *)
(* of the driver after it.  The behaviour is accepted iff each line is the   *)
(* transition the specification gives.                                       *)
EXTENDS RegistryOps, Idl, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs, probes     \* probes: the names looked up after each operation
vars == <<l, regs, probes>>
Is(b) == b = TRUE            \* b, evaluated as an expression

ParseFields(q) == [i \in 1..Len(q) |-> [n |-> q[i].n, t |-> q[i].t, off |-> q[i].off, m |-> ParseMeta(q[i].m)]]
ParseType(x) == [cat |-> x.cat, size |-> x.size, num |-> x.num, on |-> x.on, dim |-> x.dim, kind |-> x.kind,
                 fields |-> ParseFields(x.fields), vals |-> SetOf(x.vals), next |-> x.next, meta |-> ParseMeta(x.meta)]
ParseReg(st) == LET nm == [n \in {st.names[i].n : i \in 1..Len(st.names)} |->
                             LET e == st.names[CHOOSE i \in 1..Len(st.names) : st.names[i].n = n] IN [t |-> e.t, p |-> e.p, s |-> e.s]]
                IN [ns |-> st.ns, names |-> nm,
                    types |-> [n \in {st.types[i].n : i \in 1..Len(st.types)} |->
                                 ParseType(st.types[CHOOSE i \in 1..Len(st.types) : st.types[i].n = n])],
                    rel |-> RelOf(nm, st.ns)]
Diff(what, a, b) == PrintT(<<"MISMATCH", what, "specified", a, "observed", b>>) /\ FALSE
Expl == "EXPLAIN" \in DOMAIN IOEnv
Eq(what, a, b) == IF a = b THEN TRUE ELSE IF Expl THEN Diff(what, a, b) ELSE FALSE
Chk(ok, what, a, b) == IF ok THEN TRUE ELSE IF Expl THEN Diff(what, a, b) ELSE FALSE

TypeMatches(T, x) == /\ Eq(<<x.n, "definition">>, T, ParseType(x))
                     /\ Eq(<<x.n, "name">>, x.n, x.self)
                     /\ Eq(<<x.n, "deps">>, Deps(T), SetOf(x.deps))
Matches(R, st, pr) ==
  /\ Eq("namespace", R.ns, st.ns)
  /\ Eq("size", Cardinality(DOMAIN R.names), st.size)
  /\ Eq("names", DOMAIN R.names, {st.names[i].n : i \in 1..Len(st.names)})
  /\ Eq("name count", Cardinality(DOMAIN R.names), Len(st.names))
  /\ \A i \in 1..Len(st.names) : LET e == st.names[i] IN
       Eq(<<"entry", e.n>>, R.names[e.n], [t |-> e.t, p |-> e.p, s |-> e.s])
  /\ Eq("types", DOMAIN R.types, {st.types[i].n : i \in 1..Len(st.types)})
  /\ \A i \in 1..Len(st.types) : TypeMatches(R.types[st.types[i].n], st.types[i])
  /\ Eq("name lookup", {<<x, Get(R, x)>> : x \in {y \in pr : Has(R, y)}}, SetOf(st.q))
Inv(R) == Closed(R) /\ WellFormed(R) /\ ValidNames(R)

ExportedNode(x) == [k |-> x.k, name |-> x.name, source_id |-> x.source_id, size |-> x.size, category |-> x.category, of |-> x.of,
                    kind |-> x.kind, source |-> x.source, dimension |-> x.dimension, vals |-> SetOf(x.vals), meta |-> ParseMeta(x.meta),
                    fields |-> [i \in 1..Len(x.fields) |-> [n |-> x.fields[i].n, t |-> x.fields[i].t, off |-> x.fields[i].off, m |-> ParseMeta(x.fields[i].m)]]]

OutMatches(o, e) ==
  CASE e.op \in {"remove", "rdeps", "aliasesOf", "prefix"} ->
           e.res = "ok" => /\ Eq("result", o.ret, SetOf(e.out))
                           /\ Eq("result count", Cardinality(o.ret), Len(e.out))
                           /\ (e.op = "prefix" => \A i \in 1..(Len(e.out) - 1) : Eq("iteration order", NameSort(e.out[i], e.out[i + 1]), TRUE))
    [] e.op = "meta" -> e.res = "ok" => Eq("result", o.ret, <<e.out[1], SetOf(e.out[2])>>)
    [] e.op = "enumadd" -> e.res = "ok" => Eq("result", o.ret, <<e.out[1], SetOf(e.out[2])>>) /\ Cardinality(o.ret[2]) = Len(e.out[2])
    [] OTHER -> Eq("result", o.ret, e.out)

Pr(e) == probes \union SetOf(e.np)
Observe(i, R, e) == IF e.st[i] = <<>> THEN Eq("state (unchanged)", R, regs[i]) /\ \A x \in SetOf(e.np) : Eq("name lookup", Get(R, x), "")
                    ELSE Matches(R, e.st[i], Pr(e))
Others(e, i) == \A k \in 1..3 : k # i => Observe(k, regs[k], e)
(* A merge or import that fails can have added things: its result is read    *)
(* from the trace                                                            *)
FailPartial(i, e, allowed) ==
  /\ e.res \in allowed
  /\ IF e.st[i] = <<>> THEN regs' = regs
     ELSE LET N == ParseReg(e.st[i]) IN
          /\ Is(Chk(PartialOf(regs[i], N), "failed operation", regs[i], N) /\ Matches(N, e.st[i], Pr(e)))
          /\ regs' = [regs EXCEPT ![i] = N]
Simple(e) ==
  LET i == RI(e)
      o == Outcome(regs, regs[i], e)
  IN /\ Is(Eq("outcome", o.res, e.res) /\ Others(e, i))
     /\ IF o.res # "ok" /\ e.op \in {"merge", "tlbload", "stdtypes"} THEN FailPartial(i, e, {o.res})
        ELSE /\ Is(OutMatches(o, e) /\ Observe(i, o.reg, e) /\ Chk(o.res = "ok" => Inv(o.reg), "invariant", o.reg, ""))
             /\ regs' = [regs EXCEPT ![i] = o.reg]
Replace_(e, o) ==     \* operations that create registry e.d
  /\ Is(Eq("outcome", o.res, e.res) /\ Others(e, e.d))
  /\ IF o.res # "ok" THEN Is(Others(e, 0)) /\ regs' = regs
     ELSE /\ Is(Observe(e.d, o.reg, e) /\ Chk(Inv(o.reg) /\ RelConsistent(o.reg), "invariant", o.reg, ""))
          /\ regs' = [regs EXCEPT ![e.d] = o.reg]
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
SameOp(e) ==
  LET A == regs[RI(e)]
      B == regs[e.r2]
  IN /\ Is(/\ Eq("isSame(registry)", SameRegistry(A, B), e.out.reg)
           /\ Eq("isSame", {<<a, b>> \in (DOMAIN A.types) \X (DOMAIN B.types) : Same(A, a, B, b)}, Pairs(e.out.same))
           /\ Eq("canCastTo", {<<a, b>> \in (DOMAIN A.types) \X (DOMAIN B.types) : CanCast(A, a, B, b)}, Pairs(e.out.cast))
           /\ Others(e, 0))
     /\ regs' = regs
ExpectExport(R, e) == IF HasCycle(R) THEN Eq("outcome", "ExportError", e.res) ELSE Eq("outcome", "ok", e.res)
OrderOp(e) == LET R == regs[RI(e)] IN
  /\ Is(/\ ExpectExport(R, e)
        /\ e.res = "ok" => /\ Chk(OrderOk(R, e.out.order), "export order", Persistent(R), e.out.order)
                           /\ Eq("begin and end", <<"begin", "end">>, e.out.marks)
        /\ Others(e, 0))
  /\ regs' = regs
TlbSave(e) == LET R == regs[RI(e)] IN
  /\ Is(/\ ExpectExport(R, e)
        /\ e.res = "ok" =>
             LET names == [i \in 1..Len(e.out) |-> e.out[i].name] IN
             /\ Chk(OrderOk(R, names), "export order", Persistent(R), names)
             /\ \A i \in 1..Len(e.out) : Eq(<<"node", names[i]>>, ExportEntry(R, names[i]), ExportedNode(e.out[i]))
        /\ Others(e, 0))
  /\ regs' = regs
IdlConf(e) == [prefix |-> At(e, "prefix"), suffix |-> At(e, "suffix"), any |-> "any" \in DOMAIN e,
               blob |-> IF "blob" \in DOMAIN e THEN e.blob ELSE 0, sel |-> SetOf(e.sel)]
IdlSave(e) ==
  LET R == regs[RI(e)]
      c == IdlConf(e)
      d == Read(e.out)
      errs == (IF HasCycle(R) THEN {"ExportError"} ELSE {}) \union (IF Refused(R, c) THEN {"error"} ELSE {})
  IN /\ Is(/\ IF errs = {} THEN Eq("outcome", "ok", e.res) ELSE Chk(e.res \in errs, "outcome", errs, e.res)
           /\ e.res = "ok" => /\ Chk(d.ok, "well nested", "", e.out)
                              /\ Eq("definitions", {Plain(x) : x \in RangeOf(Defined(R, c))}, SetOf(d.defs))
                              /\ Chk(IdlComplete(R, c, d.defs), "definitions", Defined(R, c), d.defs)
                              /\ Chk(IdlOrdered(R, c, d.defs), "order", Defined(R, c), d.defs)
           /\ Others(e, 0))
     /\ regs' = regs
TlbTrip(e) ==
  LET R == regs[RI(e)] IN
  IF HasCycle(R) THEN Is(Eq("outcome", "ExportError", e.res) /\ Others(e, 0)) /\ regs' = regs
  ELSE LET o == RoundTrip(R) IN
       /\ Replace_(e, o)
       /\ Is(Chk(o.res = "ok" => Preserved(R, o.reg), "round trip", R, o.reg))
Fresh(e) == /\ e.op = "reset" /\ regs' = [i \in 1..3 |-> Empty]
            /\ Is(\A i \in 1..3 : IF e.st[i] = <<>> THEN regs[i] = Empty ELSE Matches(Empty, e.st[i], SetOf(e.np)))
Step(e) ==
  CASE e.op = "reset" -> Fresh(e)
    [] e.op \in {"minimal", "minimal2"} -> Replace_(e, Created(regs, e))
    [] e.op = "same"     -> SameOp(e)
    [] e.op = "order"    -> OrderOp(e)
    [] e.op = "tlbsave"  -> TlbSave(e)
    [] e.op = "tlbtrip"  -> TlbTrip(e)
    [] e.op = "idl"      -> IdlSave(e)
    [] e.op = "tlbraw"   -> e.res = "error" /\ FailPartial(RI(e), e, {"error"}) /\ Is(Others(e, RI(e)))
    [] OTHER -> Simple(e)

Init == l = 1 /\ regs = [i \in 1..3 |-> Empty] /\ probes = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Step(Trace[l])
        /\ probes' = IF Trace[l].op = "reset" THEN SetOf(Trace[l].np) ELSE Pr(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
