------------------------------ MODULE ValueTrace ------------------------------
(* Validation of traces that also have operations on values.                 *)
EXTENDS RegistryTrace, Values
VARIABLE vals
vvars == <<l, regs, probes, vals>>

IsVal(e) == e.op \in {"vnew", "vdel", "vpoke", "vzero", "vcopy", "vcmp", "vpush", "vset", "verase", "vdelif", "vclear", "vcount", "vkind", "vget",
                      "vvisit", "vdump", "vsize", "vtrunc", "vload", "veswap", "vcswap", "vcsv", "vhead", "vshape", "vfield", "vcast"}
Changed(e) == {e.vs[i][1] : i \in 1..Len(e.vs)}
ObsOf(e, i) == e.vs[CHOOSE k \in 1..Len(e.vs) : e.vs[k][1] = i][2]
(* the values after the operation are those expected *)
ValMatches(E, e) ==
  \A i \in 1..NVals :
    IF i \in Changed(e)
    THEN LET o == ObsOf(e, i) IN
         IF E[i] = <<>> THEN Eq(<<"value", i>>, <<>>, o)
         ELSE IF o = <<>> THEN Eq(<<"value", i>>, E[i], o)
         ELSE /\ Eq(<<"value", i, "type">>, <<E[i].r, E[i].t>>, <<o[1], o[2]>>)
              /\ Chk(Shape(regs[o[1]], o[2], o[3]), <<"value", i, "shape">>, E[i].V, o[3])
              /\ Chk(MatchV(E[i].V, o[3]), <<"value", i>>, E[i].V, o[3])
    ELSE IF E[i] = <<>> \/ vals[i] = <<>> THEN Eq(<<"value", i>>, E[i], vals[i])
    ELSE /\ Eq(<<"value", i, "type">>, <<E[i].r, E[i].t>>, <<vals[i].r, vals[i].t>>)
         /\ Chk(MatchV(E[i].V, vals[i].V), <<"value", i, "unchanged">>, E[i].V, vals[i].V)
Observed(e) == [i \in 1..NVals |-> IF i \notin Changed(e) THEN vals[i]
                                   ELSE LET o == ObsOf(e, i) IN IF o = <<>> THEN <<>> ELSE [r |-> o[1], t |-> o[2], V |-> o[3]]]
(* the operation failed: anything (well formed) at a, nothing else *)
WithObserved(e, a) ==
  IF a.v \notin Changed(e) THEN vals
  ELSE SetAt(regs, vals, a, SubAt(ObsOf(e, a.v)[3], a.p, a.o, SizeOf(RegOf(regs, vals, a), a.t)))

DumpOut(e, D) ==
  LET lim == IF "limit" \in DOMAIN e THEN e.limit ELSE 65536
      tooLong == Len(D) > lim
      pre == IF e.how = "vec" /\ "before" \in DOMAIN e THEN [i \in 1..e.before |-> 199 + i] ELSE <<>>
  IN CASE e.how = "bytes" -> Eq("outcome", "ok", e.res) /\ Eq("dump size", IF tooLong THEN 0 ELSE Len(D), e.out.ret)
                             /\ Eq("dump", IF tooLong THEN <<>> ELSE D, e.out.bytes)
       [] e.how \in {"fd", "file", "stream"} /\ (tooLong \/ (Bool(e, "full") /\ Len(D) > 0 /\ e.how # "stream")) -> Eq("outcome", "error", e.res)
       [] e.how \in {"fd", "file"} /\ Bool(e, "full") -> TRUE
       [] OTHER -> Eq("outcome", "ok", e.res) /\ Eq("dump", pre \o D, e.out.bytes)
TruncOut(e, D) ==
  LET R == RegOf(regs, vals, e.a)
      tp == TrailPad(R, e.a.t)
      all == Len(D) + tp + 2
      expect == IF e.how = "stream" THEN {n \in 0..all : n >= Len(D)} ELSE {Len(D), Len(D) + tp}
  IN /\ Eq("dump size", Len(D), e.out.size)
     /\ Eq("accepted lengths", expect, SetOf(e.out.good))
     /\ Eq("loaded contents", 0, e.out.differ)
CsvOut(e, cells) ==
  LET sep == Codes(e.sep) IN
  IF \A i \in 1..Len(cells) : cells[i] # ANY THEN Eq("line", JoinB(cells, sep, 1), JoinB(e.out, sep, 1))
  ELSE IF Bool(e, "num") THEN Eq("cells", Len(cells), Len(e.out)) /\ \A i \in 1..Len(cells) : cells[i] = ANY \/ Eq(<<"cell", i>>, cells[i], e.out[i])
  ELSE TRUE
ValOut(e, o) ==
  CASE o.res = "ok" /\ e.op = "vdump"  -> DumpOut(e, o.ret)
    [] o.res = "ok" /\ e.op = "vtrunc" -> Eq("outcome", "ok", e.res) /\ TruncOut(e, o.ret)
    [] o.res = "ok" /\ e.op = "vsize"  -> Eq("outcome", "ok", e.res) /\ Eq("dump size", Len(o.ret), e.out)
    [] o.res = "ok" /\ e.op = "vcsv"   -> Eq("outcome", "ok", e.res) /\ CsvOut(e, o.ret)
    [] o.res = "ok" /\ e.op = "vhead"  -> Eq("outcome", "ok", e.res)
                                          /\ Eq("header", JoinB([i \in 1..Len(o.ret) |-> Codes(o.ret[i])], Codes(e.sep), 1), JoinB(e.out, Codes(e.sep), 1))
    [] OTHER -> Eq("outcome", o.res, e.res) /\ (o.res = "ok" => Eq("result", o.ret, e.out))
VStep(e) ==
  LET o == VOutcome(regs, vals, e) IN
  /\ IF e.res = "NoRef" THEN Is(ValMatches(vals, e))
     ELSE Is(ValOut(e, o) /\ ValMatches(IF o.any THEN WithObserved(e, e.a) ELSE o.vals, e))
  /\ Is(\A k \in 1..3 : Eq("registry (unchanged)", <<>>, e.st[k]))
  /\ regs' = regs /\ vals' = Observed(e)
VInit == Init /\ vals = NoVals
VNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            /\ Is(Eq("blocks not released", 0, e.leak))
            /\ IF IsVal(e) THEN VStep(e) /\ probes' = probes
               ELSE /\ Step(e)
                    /\ Is(IF e.op = "reset" THEN \A i \in 1..Len(e.vs) : e.vs[i][2] = <<>> ELSE e.vs = <<>>)
                    /\ vals' = IF e.op = "reset" THEN NoVals ELSE vals
                    /\ probes' = IF e.op = "reset" THEN SetOf(e.np) ELSE Pr(e)
VSpec == VInit /\ [][VNext]_vvars
=============================================================================
