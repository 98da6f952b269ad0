------------------------------- MODULE ValueMC -------------------------------
(* Exhaustive exploration of a small universe of operations on values (the   *)
(* types are defined by the prefix).  Every transition found here is then    *)
(* taken by the implementation.                                              *)
EXTENDS Values, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSE)      \* [ops, prefix, depth]
VARIABLES regs, vals, hist, dead
vars == <<regs, vals, hist, dead>>
View == <<vals, dead>>

IsVal(e) == e.op \in {"vnew", "vdel", "vpoke", "vzero", "vcopy", "vcmp", "vpush", "vset", "verase", "vdelif", "vclear", "vcount", "vkind", "vget",
                      "vvisit", "vdump", "vsize", "vtrunc", "vload", "veswap", "vcswap", "vcsv", "vhead", "vshape", "vfield", "vcast"}
RECURSIVE RunAll(_, _)
RunAll(s, q) == IF q = <<>> THEN s
                ELSE LET e == Head(q) IN
                     RunAll(IF IsVal(e) THEN [s EXCEPT !.v = VOutcome(s.r, s.v, e).vals] ELSE [s EXCEPT !.r = Apply(s.r, e).regs], Tail(q))
RECURSIVE Leads(_, _)
Leads(V, p) == IF p = <<>> THEN TRUE
               ELSE LET c == {i \in 1..Len(V.c) : V.c[i][1] = p[1][1]} IN
                    IF c = {} THEN FALSE
                    ELSE LET q == V.c[CHOOSE i \in c : TRUE][2] IN IF p[1][2] < Len(q) THEN Leads(q[p[1][2] + 1], Tail(p)) ELSE FALSE
There(a) == vals[a.v] # <<>> /\ Leads(vals[a.v].V, a.p)
Enabled(e) == /\ ("a" \in DOMAIN e => There(e.a)) /\ ("b" \in DOMAIN e => There(e.b))
              /\ (e.op \in {"vget", "vset"} => e.i < Len(ContOf(ValAt(regs, vals, e.a))))
              /\ (e.op = "vnew" => vals[e.v] = <<>>) /\ (e.op = "vdel" => vals[e.v] # <<>>)
Start == RunAll([r |-> [i \in 1..3 |-> Empty], v |-> NoVals], U.prefix)
Init == regs = Start.r /\ vals = Start.v /\ hist = <<>> /\ dead = FALSE
Next == /\ ~dead /\ Len(hist) < U.depth
        /\ \E i \in 1..Len(U.ops) : Enabled(U.ops[i]) = TRUE /\
             LET o == VOutcome(regs, vals, U.ops[i]) IN
             /\ vals' = IF o.any THEN vals ELSE o.vals
             /\ dead' = o.any
             /\ hist' = Append(hist, i)
             /\ PrintT(<<"EDGE", hist, i, vals' # vals \/ o.any>>)
        /\ regs' = regs
Spec == Init /\ [][Next]_vars

Live == {i \in 1..NVals : vals[i] # <<>>}
R1 == regs[1]
T(i) == vals[i].t
V(i) == vals[i].V
Twins == {p \in Live \X Live : T(p[1]) = T(p[2])}
Lay(i) == HasLayout(R1, T(i), TRUE, TRUE)
InvShape == \A i \in Live : Shape(R1, T(i), V(i))
(* comparison is an equivalence, which copying and byte order respect *)
InvEq == /\ \A i \in Live : EqV(R1, T(i), V(i), V(i)) /\ EqV(R1, T(i), CopyV(R1, T(i), V(i)), V(i))
         /\ \A p \in Twins : EqV(R1, T(p[1]), V(p[1]), V(p[2])) => EqV(R1, T(p[1]), V(p[2]), V(p[1]))
         /\ \A p \in Twins : \A k \in Live : (T(k) = T(p[1]) /\ EqV(R1, T(k), V(p[1]), V(p[2])) /\ EqV(R1, T(k), V(p[2]), V(k))) => EqV(R1, T(k), V(p[1]), V(k))
(* the bytes without padding determine the contents and are determined by it *)
InvCanonical == \A p \in Twins : (Lay(p[1]) /\ ~HasCat(R1, T(p[1]), {"opaque"})) =>
                  (EqV(R1, T(p[1]), V(p[1]), V(p[2])) <=> DumpV(R1, T(p[1]), V(p[1]), FALSE, TRUE) = DumpV(R1, T(p[1]), V(p[2]), FALSE, TRUE))
(* a dump, all of it and nothing else, can be loaded, whatever was there     *)
InvMarshal == \A i \in Live : Lay(i) => \A m \in BOOLEAN : \A p \in {q \in Twins : q[1] = i} :
                LET D == DumpV(R1, T(i), V(i), m, TRUE)
                    L == LoadAll(R1, T(i), V(p[2]), D, m, TRUE)
                    n == TrailPad(R1, T(i)) IN
                /\ L.ok /\ Shape(R1, T(i), L.V) /\ EqV(R1, T(i), L.V, V(i))
                /\ DumpV(R1, T(i), L.V, m, TRUE) = D
                /\ \A k \in 0..(Len(D) - 1) : ~LoadAll(R1, T(i), V(p[2]), SubSeq(D, 1, k), m, TRUE).ok
                /\ \A k \in 1..(n + 2) : LoadAll(R1, T(i), V(p[2]), D \o [j \in 1..k |-> 7], m, TRUE).ok <=> k = n
InvSwap == \A i \in Live : CanSwapV(R1, T(i), V(i)) =>
             LET W == SwapV(R1, T(i), V(i)) IN
             /\ Shape(R1, T(i), W) /\ SwapV(R1, T(i), W) = V(i)
             /\ \A p \in Twins : p[1] = i /\ CanSwapV(R1, T(i), V(p[2])) =>
                  (EqV(R1, T(i), V(i), V(p[2])) <=> EqV(R1, T(i), W, SwapV(R1, T(i), V(p[2]))))
InvZero == \A i \in Live : Lay(i) => Shape(R1, T(i), ZeroV(R1, T(i))) /\ Shape(R1, T(i), InitV(R1, T(i), V(i).b))
InvText == \A i \in Live : HasText(R1, T(i), V(i)) => Len(CsvCells(R1, T(i), V(i), TRUE)) = Len(Headers(R1, T(i), "v"))
(* every byte of data is visited once *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)[3]) + Sum(Tail(q))
RECURSIVE DataIn(_, _)
DataIn(t, W) == LET its == Items(R1, t, 0)
                    RECURSIVE Go(_), Els(_, _, _)
                    Els(on, q, j) == IF j > Len(q) THEN 0 ELSE DataIn(on, q[j]) + Els(on, q, j + 1)
                    Go(k) == IF k > Len(its) THEN 0 ELSE Go(k + 1) + (CASE its[k].k = "d" /\ R1.types[its[k].t].cat # "pointer" -> its[k].n
                                                                        [] its[k].k = "c" -> Els(On(R1, its[k].t), W.c[ContAt(W, its[k].o)][2], 1)
                                                                        [] OTHER -> 0)
                IN Go(1)
InvVisit == \A i \in Live : CanVisit(R1, T(i), V(i)) => Sum(Visited(R1, T(i), V(i), 0, SizeOf(R1, T(i)))) = DataIn(T(i), V(i))
=============================================================================
