------------------------------ MODULE RubyTrace ------------------------------
(* Trace validation for the registry of the Ruby bindings                    *)
EXTENDS RubyOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, regs, probes
vars == <<l, regs, probes>>
Is(b) == b = TRUE
Diff(what, a, b) == PrintT(<<"MISMATCH", what, "specified", a, "observed", b>>) /\ FALSE
Expl == "EXPLAIN" \in DOMAIN IOEnv
Eq(what, a, b) == IF a = b THEN TRUE ELSE IF Expl THEN Diff(what, a, b) ELSE FALSE
Chk(ok, what, a, b) == IF ok THEN TRUE ELSE IF Expl THEN Diff(what, a, b) ELSE FALSE

(* what Ruby shows of a type *)
Shown(T) == [T EXCEPT !.next = 0]
ParseType(x) == [cat |-> x.cat, size |-> x.size, num |-> x.num, on |-> x.on, dim |-> x.dim, kind |-> x.kind, next |-> 0,
                 vals |-> SetOf(x.vals), meta |-> ParseMeta(x.meta),
                 fields |-> [i \in 1..Len(x.fields) |-> [n |-> x.fields[i].n, t |-> x.fields[i].t, off |-> x.fields[i].off, m |-> ParseMeta(x.fields[i].m)]]]
TypeMatches(R, x) ==
  LET d == DepClosure(R, Deps(R.types[x.n])) IN
  /\ Eq(<<x.n, "definition">>, Shown(R.types[x.n]), ParseType(x))
  /\ Eq(<<x.n, "name and accessors">>, x.n, x.self)
  /\ Eq(<<x.n, "direct dependencies">>, Deps(R.types[x.n]), SetOf(x.deps))
  /\ Eq(<<x.n, "recursive dependencies">>, d, SetOf(x.rdeps))
  /\ Eq(<<x.n, "contained types">>, d \union {x.n}, SetOf(x.con))
  /\ Eq(<<x.n, "source">>, R.names[x.n].s, x.src)
  /\ Eq(<<x.n, "split name">>, Split(x.n), x.split)
Matches(R, st, pr) ==
  /\ Chk("bad" \notin DOMAIN st, "state", R, st)
  /\ Eq("names", {<<n, R.names[n].t>> : n \in DOMAIN R.names}, SetOf(st.names))
  /\ Eq("size", Cardinality(DOMAIN R.names), st.size)
  /\ Eq("name count", Cardinality(DOMAIN R.names), Len(st.names))
  /\ \A i \in 1..(Len(st.names) - 1) : Eq("iteration order", NameSort(st.names[i][1], st.names[i + 1][1]), TRUE)
  /\ Eq("types", DOMAIN R.types, {st.types[i].n : i \in 1..Len(st.types)})
  /\ \A i \in 1..Len(st.types) : TypeMatches(R, st.types[i])
  /\ Eq("name lookup", {<<x, Get(R, x)>> : x \in {y \in pr : Has(R, y)}}, SetOf(st.q))
(* after an operation that failed half-way: what was there before still is *)
Kept(R, st) ==
  LET nm == [n \in {st.names[i][1] : i \in 1..Len(st.names)} |-> st.names[CHOOSE i \in 1..Len(st.names) : st.names[i][1] = n][2]]
      ty == [n \in {st.types[i].n : i \in 1..Len(st.types)} |-> ParseType(st.types[CHOOSE i \in 1..Len(st.types) : st.types[i].n = n])]
      N == [Empty EXCEPT !.names = [n \in DOMAIN nm |-> [t |-> nm[n], p |-> IF n \in DOMAIN R.names THEN R.names[n].p ELSE TRUE, s |-> ""]], !.types = ty]
  IN /\ Chk("bad" \notin DOMAIN st, "state", R, st)
     /\ Chk(PartialOf(R, N), "failed operation", R, N)
     /\ \A i \in 1..Len(st.types) : Eq("name and accessors", st.types[i].n, st.types[i].self)

(* the part of a registry that can be seen from Ruby *)
Vis(R) == [names |-> [n \in DOMAIN R.names |-> R.names[n].t], src |-> [n \in DOMAIN R.types |-> R.names[n].s],
           types |-> [n \in DOMAIN R.types |-> Shown(R.types[n])]]
Pr(e) == probes \union SetOf(e.np)
Observe(i, R, e) == IF e.st[i] = <<>> THEN Eq("state (unchanged)", Vis(R), Vis(regs[i])) /\ \A x \in SetOf(e.np) : Eq("name lookup", Get(R, x), "")
                    ELSE Matches(R, e.st[i], Pr(e))
Others(e, i) == \A k \in 1..3 : k # i => Observe(k, regs[k], e)
OutMatches(o, e) ==
  CASE e.op \in {"remove", "rdeps", "aliasesOf", "prefix"} ->
           e.res = "ok" => /\ Eq("result", o.ret, SetOf(e.out))
                           /\ Eq("result count", Cardinality(o.ret), Len(e.out))
                           /\ (e.op = "prefix" => \A i \in 1..(Len(e.out) - 1) : Eq("iteration order", NameSort(e.out[i], e.out[i + 1]), TRUE))
    [] e.op = "meta" -> e.res = "ok" => Eq("result", o.ret, <<e.out[1], SetOf(e.out[2])>>) /\ Cardinality(o.ret[2]) = Len(e.out[2])
    [] e.op \in {"merge", "addt", "resize", "removeAlias", "clearAliases"} -> TRUE
    [] OTHER -> e.res = "ok" => Eq("result", o.ret, e.out)
(* the driver starts over with an empty registry when a failed operation left a mark *)
Partly(i, e) == IF e.st[i] = <<>> THEN regs' = regs
                ELSE Is(Kept(regs[i], e.st[i])) /\ regs' = [regs EXCEPT ![i] = Empty]
Simple(e) ==
  LET i == RI(e)
      o == RbOutcome(regs, regs[i], e)
  IN /\ Is(Eq("outcome", o.res, e.res) /\ Others(e, i))
     /\ IF RbPartial(e, o) THEN Partly(i, e)
        ELSE /\ Is(/\ OutMatches(o, e) /\ Observe(i, o.reg, e)
                   /\ Chk(Closed(o.reg) /\ WellFormed(o.reg) /\ ValidNames(o.reg), "invariant", o.reg, ""))
             /\ regs' = [regs EXCEPT ![i] = o.reg]
Create(e) ==
  LET o == RbCreated(regs, regs[RI(e)], e) IN
  /\ Is(Eq("outcome", o.res, e.res) /\ Others(e, e.d))
  /\ IF o.res # "ok" THEN Is(Others(e, 0)) /\ regs' = regs
     ELSE /\ Is(Observe(e.d, o.reg, e) /\ Chk(Closed(o.reg) /\ ValidNames(o.reg), "invariant", o.reg, ""))
          /\ regs' = [regs EXCEPT ![e.d] = o.reg]
Pairs(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
SameOp(e) ==
  LET A == regs[RI(e)]
      B == regs[e.r2]
      D == (DOMAIN A.types) \X (DOMAIN B.types)
      S == {<<a, b>> \in D : Same(A, a, B, b)}
  IN /\ Is(/\ Eq("==", S, Pairs(e.out.same))
           /\ Eq("casts_to?", {<<a, b>> \in D : CanCast(A, a, B, b)}, Pairs(e.out.cast))
           /\ Eq("eql?", {x \in S : x[1] = x[2]}, Pairs(e.out.eql))
           /\ Others(e, 0))
     /\ regs' = regs
IdlConf(e) == [prefix |-> At(e, "prefix"), suffix |-> At(e, "suffix"), any |-> "any" \in DOMAIN e,
               blob |-> IF "blob" \in DOMAIN e THEN e.blob ELSE 0, sel |-> SetOf(e.sel)]
IdlSave(e) ==
  LET R == regs[RI(e)]
      c == IdlConf(e)
      d == Read(e.out)
  IN /\ Is(/\ Eq("outcome", IF Refused(R, c) THEN "RuntimeError" ELSE "ok", e.res)
           /\ e.res = "ok" => /\ Chk(d.ok, "well nested", "", e.out)
                              /\ Eq("definitions", {Plain(x) : x \in RangeOf(Defined(R, c))}, SetOf(d.defs))
                              /\ Chk(IdlComplete(R, c, d.defs), "definitions", Defined(R, c), d.defs)
                              /\ Chk(IdlOrdered(R, c, d.defs), "order", Defined(R, c), d.defs)
           /\ Others(e, 0))
     /\ regs' = regs
ExportOp(e) ==
  LET R == regs[RI(e)]
      x == Exported(R, e)
  IN /\ Is(/\ Eq("outcome", "ok", e.res)
           /\ \A i \in 1..Len(x) : x[i].res # "any" => Eq(e.paths[i], <<x[i].res, x[i].ret>>, e.out[i])
           /\ Others(e, 0))
     /\ regs' = regs
Fresh(e) == /\ e.op = "reset" /\ regs' = [i \in 1..3 |-> Empty]
            /\ Is(\A i \in 1..3 : IF e.st[i] = <<>> THEN regs[i] = Empty ELSE Matches(Empty, e.st[i], SetOf(e.np)))
Step(e) ==
  CASE e.op = "reset" -> Fresh(e)
    [] RbCreates(e)   -> Create(e)
    [] e.op = "same"  -> SameOp(e)
    [] e.op = "idl"   -> IdlSave(e)
    [] e.op = "export" -> ExportOp(e)
    [] e.op = "tlbraw" -> Is(Eq("outcome", "ArgumentError", e.res) /\ Others(e, RI(e))) /\ Partly(RI(e), e)
    [] OTHER -> Simple(e)

Init == l = 1 /\ regs = [i \in 1..3 |-> Empty] /\ probes = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ Step(Trace[l])
        /\ probes' = IF Trace[l].op = "reset" THEN SetOf(Trace[l].np) ELSE Pr(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
