------------------------------ MODULE ConfigSetMC ------------------------------
(* Exhaustive exploration of a small universe of calls on configuration sets.*)
EXTENDS ConfigSet, Json, IOUtils, TLC
U == JsonDeserialize(IOEnv.UNIVERSE)
VARIABLES sets, hist, last
vars == <<sets, hist, last>>
View == sets
RECURSIVE RunAll(_, _)
RunAll(S, q) == IF q = <<>> THEN S ELSE RunAll(Apply(S, Head(q)), Tail(q))
Init == sets = RunAll(NoSets, U.prefix) /\ hist = <<>> /\ last = <<>>
Bounded(S) == \A i \in DOMAIN S : Len(S[i].vals) <= U.maxvals
Dangling(S) == \E i \in DOMAIN S : S[i].p # 0 /\ S[i].p \notin DOMAIN S
Next == /\ Len(hist) < U.depth
        /\ \E i \in 1..Len(U.ops) : LET e == U.ops[i] IN
             /\ Enabled(sets, e) /\ Bounded(Apply(sets, e)) /\ ~Dangling(Apply(sets, e))
             /\ sets' = Apply(sets, e)
             /\ hist' = Append(hist, i)
             /\ last' = <<e, sets>>
             /\ PrintT(<<"EDGE", hist, i, sets' # sets>>)
Spec == Init /\ [][Next]_vars
(* every set has one owner at most, and is not part of itself *)
InvForest == \A i \in DOMAIN sets : /\ Cardinality(Owner(sets, i)) <= 1
                                    /\ \A n \in 1..Len(sets[i].kids) : sets[i].kids[n][2] \in DOMAIN sets /\ i \notin Family(sets, sets[i].kids[n][2])
(* each call did what it should and left the rest alone *)
Others(S, T, e) == \A i \in DOMAIN S \cap DOMAIN T : \A k \in {"a", "b", "ab"} : (i # e.s \/ k # e.k) => SeenKey(S[i], k) = SeenKey(T[i], k)
Laws == [][ LET e == last'[1] S == sets T == sets' IN
            /\ (e.op = "set" => ValuesOf(T[e.s], e.k) = <<e.v>>)
            /\ (e.op = "setl" => ValuesOf(T[e.s], e.k) = e.l)
            /\ (e.op = "insert" => ValuesOf(T[e.s], e.k) = ValuesOf(S[e.s], e.k) \o <<e.v>>)
            /\ (e.op = "insl" => ValuesOf(T[e.s], e.k) = ValuesOf(S[e.s], e.k) \o e.l)
            /\ (e.op = "erase" => ValuesOf(T[e.s], e.k) = <<>> /\ KidsOf(T[e.s], e.k) = KidsOf(S[e.s], e.k))
            /\ (e.op = "add" => KidsOf(T[e.s], e.k) = KidsOf(S[e.s], e.k) \o <<e.c>>)
            /\ (e.op \in {"set", "setl", "insert", "insl", "erase", "add"} => Others(S, T, e))
            /\ (e.op = "get" => S = T)
            /\ (e.op = "del" => DOMAIN T = DOMAIN S \ Family(S, e.s) /\ \A i \in DOMAIN T : T[i] = S[i]) ]_vars
=============================================================================
