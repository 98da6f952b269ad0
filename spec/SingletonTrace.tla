----------------------------- MODULE SingletonTrace -----------------------------
(* Traces of several threads that use singletons and the plugin manager: is  *)
(* there an order of the operations which explains all that was seen?        *)
EXTENDS Singleton, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, poss
Is(x) == x = TRUE
Expl == "EXPLAIN" \in DOMAIN IOEnv
Say(what, x) == IF Expl THEN PrintT(<<"MISMATCH", what, x>>) ELSE TRUE

(* possible states while threads run: S, inst (ids of the objects), top (the *)
(* largest id so far), lock (the thread which creates or destroys), q (events*)
(* due), at (per thread: the call it is in, parts done, result, returned)    *)
NT(e) == Len(e.threads)
Begin(X, e) == [X EXCEPT !.at = [t \in 1..NT(e) |-> [k |-> 0, done |-> 0, out |-> <<>>]]]
Busy(X, e, t) == X.at[t].k > 0 /\ X.at[t].done < Parts(e.threads[t][X.at[t].k])
(* one part of the operation thread t is in takes effect *)
Effect(X, e, t) ==
  LET o == e.threads[t][X.at[t].k] IN
  LET p == Part(X.S, o, X.at[t].done + 1) IN
  [X EXCEPT !.S = p.S, !.at[t].done = @ + 1, !.at[t].out = IF p.out = <<>> THEN @ ELSE IF o.op = "inst" THEN <<"ok", IF NameOf(X.S, o.h) = P THEN 1 ELSE X.inst[NameOf(X.S, o.h)]>> ELSE p.out,
            !.lock = IF p.ev = <<>> THEN 0 ELSE t, !.q = p.ev]
Can(X, e, t) == X.lock = 0 /\ Busy(X, e, t) /\ Enabled(X.S, e.threads[t][X.at[t].k])
RECURSIVE Closure(_, _)
Closure(Xs, e) == LET more == UNION {{Effect(X, e, t) : t \in {u \in 1..NT(e) : Can(X, e, u)}} : X \in Xs} IN
                  IF more \subseteq Xs THEN Xs ELSE Closure(Xs \cup more, e)
(* the event is one that is due *)
Consume(X, x) == [X EXCEPT !.q = IF @[1] = {x} THEN Tail(@) ELSE <<@[1] \ {x}>> \o Tail(@), !.lock = IF X.q[1] = {x} /\ Len(X.q) = 1 THEN 0 ELSE @]
Due(X, t, x) == X.lock = t /\ X.q # <<>> /\ x \in X.q[1]
After(X, e, v) ==
  LET t == v[1] IN
  CASE v[2] = "c" -> {[X EXCEPT !.at[t] = [k |-> v[3], done |-> 0, out |-> <<>>]]}
    [] v[2] = "b" -> IF Due(X, t, <<"b", v[3]>>) /\ v[4] > X.top THEN {[Consume(X, <<"b", v[3]>>) EXCEPT !.inst[v[3]] = v[4], !.top = v[4]]} ELSE {}
    [] v[2] = "d" -> IF Due(X, t, <<"d", v[3]>>) /\ v[4] = X.inst[v[3]] THEN {[Consume(X, <<"d", v[3]>>) EXCEPT !.inst[v[3]] = 0]} ELSE {}
    [] v[2] = "p" -> IF Due(X, t, <<"p", v[3]>>) THEN {Consume(X, <<"p", v[3]>>)} ELSE {}
    [] v[2] = "r" -> IF X.at[t].k = v[3] /\ ~Busy(X, e, t) /\ X.lock # t /\ X.at[t].out = e.out[t][v[3]] THEN {X} ELSE {}
RECURSIVE Events(_, _, _)
Events(Xs, e, i) ==
  IF i > Len(e.log) THEN Xs
  ELSE LET c == Closure(Xs, e)
           n == UNION {After(X, e, e.log[i]) : X \in c} IN
       IF n = {} THEN IF Say(<<"event", i, e.log[i]>>, {[refs |-> X.S.refs, inst |-> X.inst, lock |-> X.lock, due |-> X.q, at |-> X.at] : X \in c}) THEN {} ELSE {}
       ELSE Events(n, e, i + 1)
Fresh == [S |-> Start, inst |-> [n \in Names |-> 0], top |-> 0, lock |-> 0, q |-> <<>>, at |-> <<>>]
Result(e) ==
  CASE e.op = "reset" -> {Fresh}
    [] e.op = "conf" -> {[X EXCEPT !.S.conf = [deps |-> e.deps, temp |-> e.temp, dtemp |-> e.dtemp, dirs |-> e.dirs], !.S.fails = e.fails] : X \in poss}
    [] e.op = "par" -> {[X EXCEPT !.at = <<>>] : X \in {Y \in Events({Begin(X, e) : X \in poss}, e, 1) : Y.lock = 0 /\ Consistent(Y.S)}}
Step(e) == /\ (e.op = "par" => \A t \in 1..NT(e) : Len(e.out[t]) = Len(e.threads[t]))
           /\ Result(e) # {}
Init == l = 1 /\ poss = {Fresh}
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Is(Step(Trace[l])) /\ poss' = Result(Trace[l])
Spec == Init /\ [][Next]_<<l, poss>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
