----------------------------- MODULE RubyValueMC -----------------------------
(* Exhaustive exploration of small universes of operations on values of the  *)
(* Ruby bindings: what Ruby is given is what it gives back, whatever the     *)
(* history, and a wrapper that can still be used denotes memory that exists. *)
EXTENDS RubyValues, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)      \* [ops, prefix, depth]
VARIABLES regs, vals, held, hist, dead
vars == <<regs, vals, held, hist, dead>>
View == <<vals, held, dead>>

IsVal(e) == StartsWith("v", e.op)
RECURSIVE RunAll(_, _)
RunAll(s, q) == IF q = <<>> THEN s
                ELSE LET e == Head(q) IN
                     RunAll(IF IsVal(e) THEN [s EXCEPT !.v = RVOutcome(s.r, s.v, e).vals] ELSE [s EXCEPT !.r = RbApply(s.r, e).regs], Tail(q))
RECURSIVE Leads(_, _)
Leads(V, p) == IF p = <<>> THEN TRUE
               ELSE LET c == {i \in 1..Len(V.c) : V.c[i][1] = p[1][1]} IN
                    IF c = {} THEN FALSE
                    ELSE LET q == V.c[CHOOSE i \in c : TRUE][2] IN IF p[1][2] < Len(q) THEN Leads(q[p[1][2] + 1], Tail(p)) ELSE FALSE
There(a) == vals[a.v] # <<>> /\ Leads(vals[a.v].V, a.p)
Enabled(e) == /\ ("a" \in DOMAIN e => There(e.a)) /\ ("b" \in DOMAIN e => There(e.b))
              /\ ("d" \in DOMAIN e /\ e.d.k = "w" => There(e.d.a))
              /\ ("ds" \in DOMAIN e => \A i \in 1..Len(e.ds) : e.ds[i].k = "w" => There(e.ds[i].a))
              /\ (e.op = "vdel" => vals[e.v] # <<>>)
(* a wrapper of a value whose surroundings are replaced must not be used any *)
(* more; others stay                                                         *)
NextHeld(e, ok) ==
  LET x == [e EXCEPT !.op = @] @@ [res |-> IF ok THEN "ok" ELSE "refused"]
      m == Modifies(vals, x)
  IN IF e.op = "vhold" THEN [v |-> e.a.v, h |-> <<"at", e.a>>]
     ELSE IF held.h = <<>> \/ held.v \in Replaces(x) THEN [v |-> 0, h |-> <<>>]
     ELSE IF held.h # <<"inv">> /\ m # <<>> /\ InElement(regs, vals, m[1], held.h[2]) THEN [held EXCEPT !.h = <<"inv">>]
     ELSE held
Begin == RunAll([r |-> [i \in 1..3 |-> Empty], v |-> NoVals], U.prefix)
Init == regs = Begin.r /\ vals = Begin.v /\ held = [v |-> 0, h |-> <<>>] /\ hist = <<>> /\ dead = FALSE
Next == /\ ~dead /\ Len(hist) < U.depth
        /\ \E i \in 1..Len(U.ops) : Enabled(U.ops[i]) = TRUE /\
             LET o == RVOutcome(regs, vals, U.ops[i]) IN
             /\ vals' = IF o.any THEN vals ELSE o.vals
             /\ held' = NextHeld(U.ops[i], o.res = "ok")
             /\ dead' = o.any
             /\ hist' = Append(hist, i)
             /\ PrintT(<<"EDGE", hist, i, vals' # vals \/ held' # held \/ o.any>>)
        /\ regs' = regs
Spec == Init /\ [][Next]_vars

Live == {i \in 1..NVals : vals[i] # <<>>}
Rg(i) == regs[vals[i].r]
T(i) == vals[i].t
V(i) == vals[i].V
InvShape == \A i \in Live : Shape(Rg(i), T(i), V(i))
(* the wrapper that is held is unusable, or what it wraps exists *)
InvHeld == held.h # <<>> /\ held.h # <<"inv">> => There(held.h[2])
(* the Ruby data that describes a value all the way down *)
IntData(x) == [k |-> "i", neg |-> x[2], m |-> x[3], bad |-> FALSE, f4 |-> <<>>, f8 |-> <<>>]
RECURSIVE Data(_, _, _)
Data(R, t, W) ==
  LET Y == R.types[t]
      q == IF Y.cat \in {"array", "container"} THEN Elems(R, t, W) ELSE <<>>
  IN CASE Y.cat = "numeric" -> (LET x == NumRb(t, Y, W.b) IN CASE x[1] = "b" -> [k |-> "b", v |-> x[2]]
                                                               [] x[1] = "i" -> IntData(x)
                                                               [] OTHER -> [k |-> "f", neg |-> FALSE, m |-> <<>>, bad |-> TRUE, f4 |-> W.b, f8 |-> W.b])
       [] Y.cat = "enum" -> [k |-> "y", s |-> SymbolOf(Y, W.b)]
       [] IsText(R, t) -> [k |-> "s", b |-> ToRb(R, t, W)[2], n |-> 0, ord |-> 0, s |-> ""]
       [] Y.cat \in {"array", "container"} -> [k |-> "a", v |-> [i \in 1..Len(q) |-> Data(R, Y.on, q[i])]]
       [] OTHER -> [k |-> "h", v |-> [i \in 1..Len(Y.fields) |-> <<Y.fields[i].n, Data(R, Y.fields[i].t, FieldV(R, t, W, i))>>]]
RECURSIVE Describable(_, _, _)
Describable(R, t, W) ==     \* can be described in Ruby, without loss
  LET Y == R.types[t]
      q == IF Y.cat \in {"array", "container"} THEN Elems(R, t, W) ELSE <<>>
  IN CASE Y.cat = "numeric" -> ~(t = "/bool" /\ \E i \in 1..Len(W.b) : W.b[i] > (IF i = 1 THEN 1 ELSE 0))
       [] Y.cat = "enum" -> SymOf(Y, W.b) # {}
       [] IsText(R, t) -> Y.cat = "container" \/ LET s == UpToNul(W.b) IN Len(s) < Len(W.b) /\ \A i \in (Len(s) + 1)..Len(W.b) : W.b[i] = 0
       [] Y.cat \in {"array", "container"} -> (Y.cat = "container" => R.types[Y.on].cat # "enum") /\ \A i \in 1..Len(q) : Describable(R, Y.on, q[i])
       [] Y.cat = "compound" -> \A i \in 1..Len(Y.fields) : Describable(R, Y.fields[i].t, FieldV(R, t, W, i))
       [] OTHER -> FALSE
InvRoundTrip == \A i \in Live : Describable(Rg(i), T(i), V(i)) =>
                  LET x == FR(regs, vals, vals[i].r, T(i), Data(Rg(i), T(i), V(i))) IN x.ok /\ EqV(Rg(i), T(i), x.V, V(i))
(* a value is equal to what is built from its wrapper *)
InvWrapper == \A i \in Live : CanPut(Rg(i), T(i)) =>
                  LET x == FR(regs, vals, vals[i].r, T(i), [k |-> "w", a |-> RootOf(vals, i)]) IN x.ok /\ EqV(Rg(i), T(i), x.V, V(i))
InvSimple == \A i \in Live : Describable(Rg(i), T(i), V(i)) => Simple2(Rg(i), T(i), V(i), [sf |-> "nil", pack |-> TRUE]) # NoSimple
=============================================================================
