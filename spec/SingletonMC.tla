------------------------------ MODULE SingletonMC ------------------------------
(* Exhaustive exploration of single operations on a few singletons.          *)
EXTENDS Singleton, Json, IOUtils, TLC
U == JsonDeserialize(IOEnv.UNIVERSE)
VARIABLES S, hist, ev
View == S
OpOf(i) == LET q == U.ops[i].threads IN (CHOOSE t \in {q[k] : k \in 1..Len(q)} : t # <<>>)[1]
C == U.prefix[1]
Init == /\ S = [Start EXCEPT !.conf = [deps |-> C.deps, temp |-> C.temp, dtemp |-> C.dtemp, dirs |-> C.dirs], !.fails = C.fails]
        /\ hist = <<>> /\ ev = <<>>
Next == /\ Len(hist) < U.depth
        /\ \E i \in 1..Len(U.ops) : LET e == OpOf(i) w == Whole(S, e, 1, <<>>, <<>>) IN
             /\ Enabled(S, e)
             /\ S' = w.S /\ ev' = w.ev /\ hist' = Append(hist, i)
             /\ PrintT(<<"EDGE", hist, i, w.S # S>>)
Spec == Init /\ [][Next]_<<S, hist, ev>>
InvConsistent == Consistent(S)
InvAlive == \A n \in Names : (S.refs[n] > 0) => \/ \E k \in 1..Len(S.h) : S.h[k][2] = n
                                               \/ \E m \in 1..NS : S.refs[m] > 0 /\ Count(S.conf.deps[m], n) > 0
InvNone == S.h = <<>> => \A n \in Names : S.refs[n] = 0
(* what is created and destroyed accounts for what exists *)
Net(q, n) == LET RECURSIVE G(_)
                 G(k) == IF k > Len(q) THEN 0 ELSE (IF <<"b", n>> \in q[k] THEN 1 ELSE 0) - (IF <<"d", n>> \in q[k] THEN 1 ELSE 0) + G(k + 1) IN G(1)
Alive(X, n) == IF X.refs[n] > 0 THEN 1 ELSE 0
Accounted == [][\A n \in 1..NS : Alive(S', n) = Alive(S, n) + Net(ev', n)]_<<S, hist, ev>>
=============================================================================
