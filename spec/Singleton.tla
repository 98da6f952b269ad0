------------------------------- MODULE Singleton -------------------------------
(* Shared singletons (utilmm::singleton): an object exists while somebody    *)
(* refers to it.  Also the plugin manager, which is one of them.             *)
(*                                                                           *)
(* Constructors and destructors may themselves use other singletons:         *)
(*   deps[n]  those which the object n refers to while it exists             *)
(*   temp[n]  those used during construction only                            *)
(*   dtemp[n] those used during destruction only                             *)
(*   fails[n] how many times construction fails before it succeeds           *)
EXTENDS Integers, Sequences, FiniteSets
NS == 4
P == 5                                  \* the plugin manager
Names == 1..P
NoConf == [deps |-> <<<<>>, <<>>, <<>>, <<>>>>, temp |-> <<<<>>, <<>>, <<>>, <<>>>>, dtemp |-> <<<<>>, <<>>, <<>>, <<>>>>, dirs |-> <<"none">>]
Start == [conf |-> NoConf, fails |-> <<0, 0, 0, 0>>, refs |-> [n \in Names |-> 0], h |-> <<>>, pm |-> [exps |-> {}, imps |-> {}, defs |-> <<>>]]

(* ---- what loading the plugins of the directories gives: names *)
ContentsOf(d) == CASE d \in {"tlb"} -> [e |-> {"tlb"}, i |-> {"tlb"}] [] d \in {"idl", "junk"} -> [e |-> {"idl"}, i |-> {}]
                   [] d = "all" -> [e |-> {"tlb", "idl"}, i |-> {"tlb"}] [] OTHER -> [e |-> {}, i |-> {}]
BasePM(S) == LET ds == {ContentsOf(S.conf.dirs[k]) : k \in 1..Len(S.conf.dirs)} IN
             [exps |-> {<<x, 0>> : x \in UNION {d.e : d \in ds}}, imps |-> {<<x, 0>> : x \in UNION {d.i : d \in ds}}, defs |-> <<>>]
Plugins(pm) == {x[2] : x \in pm.exps \cup pm.imps} \cup {pm.defs[k] : k \in 1..Len(pm.defs)}

(* ---- references; the results have a sequence of sets of events            *)
(*      <<"b", n>>, <<"d", n>>: n was created, destroyed; <<"p", id>>: a     *)
(*      plugin was destroyed                                                 *)
RECURSIVE Acq(_, _), Rel(_, _), AcqAll(_, _, _), RelAll(_, _)
Acq(S, n) ==
  IF S.refs[n] > 0 THEN [ok |-> TRUE, S |-> [S EXCEPT !.refs[n] = @ + 1], ev |-> <<>>]
  ELSE IF n = P THEN [ok |-> TRUE, S |-> [S EXCEPT !.refs[n] = 1, !.pm = BasePM(S)], ev |-> <<>>]
  ELSE LET d == AcqAll(S, S.conf.deps[n], 1)
           RECURSIVE Temps(_, _)
           Temps(x, k) == IF k > Len(S.conf.temp[n]) \/ ~x.ok THEN x
                          ELSE LET a == Acq(x.S, S.conf.temp[n][k]) IN
                               IF ~a.ok THEN [a EXCEPT !.ev = x.ev \o @]
                               ELSE LET r == Rel(a.S, S.conf.temp[n][k]) IN Temps([ok |-> TRUE, S |-> r.S, ev |-> x.ev \o a.ev \o r.ev], k + 1)
           t == IF d.ok THEN Temps(d, 1) ELSE d
       IN IF ~d.ok THEN d
          ELSE IF ~t.ok THEN LET u == RelAll(t.S, S.conf.deps[n]) IN [ok |-> FALSE, S |-> u.S, ev |-> t.ev \o u.ev]
          ELSE IF t.S.fails[n] > 0 THEN LET u == RelAll([t.S EXCEPT !.fails[n] = @ - 1], S.conf.deps[n]) IN [ok |-> FALSE, S |-> u.S, ev |-> t.ev \o u.ev]
          ELSE [ok |-> TRUE, S |-> [t.S EXCEPT !.refs[n] = 1], ev |-> t.ev \o <<{<<"b", n>>}>>]
(* those acquired so far are released when one fails *)
AcqAll(S, q, k) ==
  IF k > Len(q) THEN [ok |-> TRUE, S |-> S, ev |-> <<>>]
  ELSE LET a == Acq(S, q[k]) IN
       IF ~a.ok THEN a
       ELSE LET b == AcqAll(a.S, q, k + 1) IN
            IF b.ok THEN [b EXCEPT !.ev = a.ev \o @]
            ELSE LET r == Rel(b.S, q[k]) IN [ok |-> FALSE, S |-> r.S, ev |-> a.ev \o b.ev \o r.ev]
Rel(S, n) ==
  IF S.refs[n] > 1 THEN [S |-> [S EXCEPT !.refs[n] = @ - 1], ev |-> <<>>]
  ELSE IF n = P THEN LET ids == Plugins(S.pm) \ {0} IN
                     [S |-> [S EXCEPT !.refs[n] = 0, !.pm = Start.pm], ev |-> IF ids = {} THEN <<>> ELSE <<{<<"p", i>> : i \in ids}>>]
  ELSE LET RECURSIVE Temps(_, _)
           Temps(x, k) == IF k > Len(S.conf.dtemp[n]) THEN x
                          ELSE LET a == Acq(x.S, S.conf.dtemp[n][k]) IN
                               IF ~a.ok THEN Temps([S |-> a.S, ev |-> x.ev \o a.ev], k + 1)
                               ELSE LET r == Rel(a.S, S.conf.dtemp[n][k]) IN Temps([S |-> r.S, ev |-> x.ev \o a.ev \o r.ev], k + 1)
           t == Temps([S |-> [S EXCEPT !.refs[n] = 0], ev |-> <<{<<"d", n>>}>>], 1)
           u == RelAll(t.S, S.conf.deps[n])
       IN [S |-> u.S, ev |-> t.ev \o u.ev]
(* in the reverse order *)
RelAll(S, q) == IF q = <<>> THEN [S |-> S, ev |-> <<>>]
                ELSE LET r == Rel(S, q[Len(q)])
                         u == RelAll(r.S, SubSeq(q, 1, Len(q) - 1)) IN [S |-> u.S, ev |-> r.ev \o u.ev]

(* ---- handles: a sequence of pairs <<handle, singleton>>                   *)
Held(S, i) == {k \in 1..Len(S.h) : S.h[k][1] = i}
NameOf(S, i) == S.h[CHOOSE k \in Held(S, i) : TRUE][2]
Hold(S, i, n) == [S EXCEPT !.h = Append(@, <<i, n>>)]
Drop(S, i) == [S EXCEPT !.h = SelectSeq(@, LAMBDA x : x[1] # i)]

(* ---- the parts of an operation.  Each takes effect at one point between   *)
(*      the call and the return: [S, ev, out], out is <<>> before the end    *)
Named(set, x) == {p \in set : p[1] = x}
IdOf(set, x) == (CHOOSE p \in Named(set, x) : TRUE)[2]
ToStr(n) == CASE n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] n = 5 -> "5" [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] OTHER -> "9"
LoadCycles(how) == IF how \in {"new", "newfile", "newplain", "newfileplain"} THEN 3 ELSE 2
Parts(e) == CASE e.op = "preg" -> 2 [] e.op = "psave" -> 4 [] e.op = "pload" -> 2 * LoadCycles(e.how) [] OTHER -> 1
PmResult(S, e) ==
  LET pm == S.pm set == IF e.op = "psave" \/ (e.op = "pget" /\ e.kind = "exp") THEN pm.exps ELSE pm.imps IN
  CASE e.op = "preg" -> <<"ok", pm.defs>>
    [] Named(set, e.name) = {} -> <<"PluginNotFound", "">>
    [] e.op = "pget" -> <<"ok", <<IdOf(set, e.name), TRUE>>>>
    [] e.op = "psave" -> <<"ok", "exp" \o ToStr(IdOf(set, e.name)) \o (IF e.how \in {"string", "stream"} THEN e.opt ELSE "")>>
    [] OTHER -> <<"ok", "/imp" \o ToStr(IdOf(set, e.name)) \o "z" \o (IF e.how \in {"new", "newfile", "into", "intofile"} THEN e.opt ELSE "")>>
Part(S, e, k) ==
  CASE e.op = "acq" -> LET a == Acq(S, e.n) IN [S |-> IF a.ok THEN Hold(a.S, e.h, e.n) ELSE a.S, ev |-> a.ev, out |-> <<IF a.ok THEN "ok" ELSE "failed", "">>]
    [] e.op = "copy" -> LET n == NameOf(S, e.from) a == Acq(S, n) IN [S |-> Hold(a.S, e.h, n), ev |-> a.ev, out |-> <<"ok", "">>]
    [] e.op = "rel" -> LET n == NameOf(S, e.h) a == Rel(S, n) IN [S |-> Drop(a.S, e.h), ev |-> a.ev, out |-> <<"ok", "">>]
    [] e.op = "assign" -> [S |-> S, ev |-> <<>>, out |-> <<"ok", "">>]
    [] e.op = "inst" -> [S |-> S, ev |-> <<>>, out |-> <<"ok", <<"id", NameOf(S, e.h)>>>>]
    [] e.op = "padd" ->
         LET pm == S.pm IN
         IF e.kind = "def" THEN [S |-> [S EXCEPT !.pm.defs = Append(@, e.id)], ev |-> <<>>, out |-> <<"ok", TRUE>>]
         ELSE LET set == IF e.kind = "exp" THEN pm.exps ELSE pm.imps IN
              IF Named(set, e.name) # {} THEN [S |-> S, ev |-> <<>>, out |-> <<"ok", FALSE>>]
              ELSE [S |-> IF e.kind = "exp" THEN [S EXCEPT !.pm.exps = @ \cup {<<e.name, e.id>>}] ELSE [S EXCEPT !.pm.imps = @ \cup {<<e.name, e.id>>}],
                    ev |-> <<>>, out |-> <<"ok", TRUE>>]
    [] e.op = "pget" -> [S |-> S, ev |-> <<>>, out |-> PmResult(S, e)]
    [] OTHER ->         \* the manager is acquired and released in turns
         IF k % 2 = 1 THEN LET a == Acq(S, P) IN [S |-> a.S, ev |-> a.ev, out |-> PmResult(a.S, e)]
         ELSE LET r == Rel(S, P) IN [S |-> r.S, ev |-> r.ev, out |-> <<>>]
Enabled(S, e) ==
  CASE e.op = "acq" -> Held(S, e.h) = {}
    [] e.op = "copy" -> Held(S, e.h) = {} /\ Held(S, e.from) # {}
    [] e.op = "assign" -> Held(S, e.h) # {} /\ Held(S, e.from) # {} /\ NameOf(S, e.h) = NameOf(S, e.from)
    [] e.op \in {"rel", "inst"} -> Held(S, e.h) # {}
    [] e.op \in {"padd", "pget"} -> Held(S, e.h) # {} /\ NameOf(S, e.h) = P /\ (e.op = "padd" => e.id \notin Plugins(S.pm))
    [] OTHER -> TRUE
(* an operation on its own *)
RECURSIVE Whole(_, _, _, _, _)
Whole(S, e, k, ev, out) == IF k > Parts(e) THEN [S |-> S, ev |-> ev, out |-> out]
                           ELSE LET p == Part(S, e, k) IN Whole(p.S, e, k + 1, ev \o p.ev, IF p.out = <<>> THEN out ELSE p.out)

(* ---- what always holds when nothing is going on *)
RECURSIVE Count(_, _)
Count(q, n) == IF q = <<>> THEN 0 ELSE (IF Head(q) = n THEN 1 ELSE 0) + Count(Tail(q), n)
RECURSIVE DepRefs(_, _, _)
DepRefs(S, n, m) == IF m > NS THEN 0 ELSE (IF S.refs[m] > 0 THEN Count(S.conf.deps[m], n) ELSE 0) + DepRefs(S, n, m + 1)
Consistent(S) == /\ \A n \in Names : S.refs[n] = Cardinality({k \in 1..Len(S.h) : S.h[k][2] = n}) + (IF n = P THEN 0 ELSE DepRefs(S, n, 1))
                 /\ (S.refs[P] = 0 => S.pm = Start.pm)
=============================================================================
