---------------------------- MODULE RubyValueTrace ----------------------------
(* Validation of traces of values of the Ruby bindings.                      *)
EXTENDS RubyTrace, RubyValues
VARIABLES vals, hs
vvars == <<l, regs, probes, vals, hs>>

IsVal(e) == StartsWith("v", e.op)
Changed(e) == {e.vs[i][1] : i \in 1..Len(e.vs)}
ObsOf(e, i) == e.vs[CHOOSE k \in 1..Len(e.vs) : e.vs[k][1] = i][2]
ValMatches(E, e) ==
  \A i \in 1..NVals :
    IF i \in Changed(e)
    THEN LET o == ObsOf(e, i) IN
         IF E[i] = <<>> THEN Eq(<<"value", i>>, <<>>, o)
         ELSE IF o = <<>> THEN Eq(<<"value", i>>, E[i], o)
         ELSE /\ Eq(<<"value", i, "type">>, <<E[i].r, E[i].t>>, <<o[1], o[2]>>)
              /\ Chk(Shape(regs[o[1]], o[2], o[3]), <<"value", i, "shape">>, E[i].V, o[3])
              /\ Chk(MatchV(E[i].V, o[3]), <<"value", i>>, E[i].V, o[3])
    ELSE IF E[i] = <<>> \/ vals[i] = <<>> THEN Eq(<<"value", i>>, E[i], vals[i])
    ELSE /\ Eq(<<"value", i, "type">>, <<E[i].r, E[i].t>>, <<vals[i].r, vals[i].t>>)
         /\ Chk(MatchV(E[i].V, vals[i].V), <<"value", i, "unchanged">>, E[i].V, vals[i].V)
Observed(e) == [i \in 1..NVals |-> IF i \notin Changed(e) THEN vals[i]
                                   ELSE LET o == ObsOf(e, i) IN IF o = <<>> THEN <<>> ELSE [r |-> o[1], t |-> o[2], V |-> o[3]]]
(* the operation failed: anything (well formed) at a, nothing else *)
WithObserved(e, a) ==
  IF a.v \notin Changed(e) THEN vals
  ELSE SetAt(regs, vals, a, SubAt(ObsOf(e, a.v)[3], a.p, a.o, SizeOf(RegOf(regs, vals, a), a.t)))

(* exceptions a caller can expect; which of them is not specified *)
Refusal == {"UnknownConversion", "TypeError", "ArgumentError", "RangeError", "IndexError", "NotImplemented", "NotFound"}
CsvOut(e, cells, heads) ==
  LET sep == Codes(e.sep) IN
  /\ (\A i \in 1..Len(cells) : cells[i] # ANY) => Eq("line", JoinB(cells, sep, 1), e.out[1])
  /\ Eq("header", JoinB([i \in 1..Len(heads) |-> Codes(heads[i])], sep, 1), e.out[2])
ValOut(e, o) ==
  IF o.res = "ok"
  THEN Eq("outcome", "ok", e.res) /\ IF e.op = "vcsv" THEN CsvOut(e, o.ret[1], o.ret[2])
                                    ELSE IF e.op = "vfind" THEN Eq("found", o.ret, {<<e.out[i][1], e.out[i][2]>> : i \in 1..Len(e.out)}) /\ Eq("number found", Cardinality(o.ret), Len(e.out))
                                    ELSE Eq("result", o.ret, e.out)
  ELSE Chk(e.res \in Refusal, "outcome", o.res, e.res)
Hold(e, i) == IF e.op = "vhold" /\ e.h = i /\ e.res = "ok" THEN Eq(<<"handle", i>>, <<"at", e.a>>, e.hs[i])
              ELSE Chk(Held(regs, vals, e, hs[i], e.hs[i]), <<"handle", i>>, hs[i], e.hs[i])
NewHs(e) == [i \in 1..Len(e.hs) |-> [v |-> IF e.op = "vhold" /\ e.h = i /\ e.res = "ok" THEN e.a.v ELSE hs[i].v, h |-> e.hs[i]]]
VStep(e) ==
  /\ IF e.res = "NoRef" THEN Is(ValMatches(vals, e) /\ \A i \in 1..3 : Eq(<<"handle", i>>, hs[i].h, e.hs[i]))
     ELSE LET o == RVOutcome(regs, vals, e) IN
          Is(ValOut(e, o) /\ ValMatches(IF o.any THEN WithObserved(e, e.a) ELSE o.vals, e) /\ \A i \in 1..3 : Hold(e, i))
  /\ Is(\A k \in 1..3 : Eq("registry (unchanged)", <<>>, e.st[k]))
  /\ regs' = regs /\ vals' = Observed(e) /\ hs' = NewHs(e)
NoHs == [i \in 1..3 |-> [v |-> 0, h |-> <<>>]]
VInit == Init /\ vals = NoVals /\ hs = NoHs
VNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
            IF IsVal(e) THEN VStep(e) /\ probes' = probes
            ELSE /\ Step(e)
                 /\ Is(IF e.op = "reset" THEN \A i \in 1..Len(e.vs) : e.vs[i][2] = <<>> ELSE e.vs = <<>>)
                 /\ Is(\A i \in 1..3 : Eq(<<"handle", i>>, IF e.op = "reset" THEN <<>> ELSE hs[i].h, e.hs[i]))
                 /\ vals' = IF e.op = "reset" THEN NoVals ELSE vals
                 /\ hs' = IF e.op = "reset" THEN NoHs ELSE hs
                 /\ probes' = IF e.op = "reset" THEN SetOf(e.np) ELSE Pr(e)
VSpec == VInit /\ [][VNext]_vvars
=============================================================================
