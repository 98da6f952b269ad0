------------------------------- MODULE ConfigSet -------------------------------
(* Configuration sets (utilmm::config_set): keys with several values each in *)
(* order of insertion, and named child sets, which belong to their parent.   *)
EXTENDS Names, Integers
(* state: function from ids of live sets to                                  *)
(*   [p |-> parent given, vals |-> seq of <<key, text>>, kids |-> seq of <<key, id>>] *)
NoSets == <<>>       \* a function with an empty domain
Of(q, k) == LET RECURSIVE G(_)
                G(x) == IF x = <<>> THEN <<>> ELSE (IF Head(x)[1] = k THEN <<Head(x)[2]>> ELSE <<>>) \o G(Tail(x)) IN G(q)
Without(q, k) == SelectSeq(q, LAMBDA x : x[1] # k)
ValuesOf(C, k) == Of(C.vals, k)
KidsOf(C, k) == Of(C.kids, k)
Owner(S, i) == {j \in DOMAIN S : \E n \in 1..Len(S[j].kids) : S[j].kids[n][2] = i}
RECURSIVE Family(_, _)
Family(S, i) == {i} \cup UNION {Family(S, S[i].kids[n][2]) : n \in 1..Len(S[i].kids)}
Append2(C, k, q) == [C EXCEPT !.vals = @ \o [n \in 1..Len(q) |-> <<k, q[n]>>]]
(* ---- text to values *)
IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitOf(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9
Sign(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN Ch(s, 1) ELSE ""
Abs(s) == IF Sign(s) = "" THEN s ELSE SubSeq(s, 2, Len(s))
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE Neg(_)       \* minus the number, which always fits
Neg(s) == IF Len(s) = 0 THEN 0 ELSE Neg(SubSeq(s, 1, Len(s) - 1)) * 10 - DigitOf(Ch(s, Len(s)))
Max == "2147483648"
RECURSIVE Leq(_, _)
Leq(a, b) == IF Len(a) = 0 THEN TRUE ELSE IF Ch(a, 1) # Ch(b, 1) THEN DigitOf(Ch(a, 1)) < DigitOf(Ch(b, 1)) ELSE Leq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
IntOk(s) == IsDigits(Abs(s)) /\ LET d == Strip(Abs(s)) IN
             \/ Len(d) < 10
             \/ Len(d) = 10 /\ Leq(d, Max) /\ (d = Max => Sign(s) = "-")
IntOf(s) == LET n == Neg(Strip(Abs(s))) IN IF Sign(s) = "-" THEN n ELSE -n
BoolOk(s) == s \in {"true", "1", "false", "0"}
Can(t, s) == CASE t = "int" -> IntOk(s) [] t = "bool" -> BoolOk(s) [] OTHER -> TRUE
Conv(t, s) == CASE t = "int" -> IntOf(s) [] t = "bool" -> s \in {"true", "1"} [] OTHER -> s
Default(t) == CASE t = "int" -> 0 [] t = "bool" -> FALSE [] OTHER -> ""
(* the possible outcomes of a typed access; a single value is asked for: the *)
(* first; whether the others are looked at is left open                      *)
Got(C, e) ==
  LET q == ValuesOf(C, e.k)
      all == \A i \in 1..Len(q) : Can(e.t, q[i]) IN
  IF q = <<>> THEN {<<"ok", IF e.list \/ e.def # <<>> THEN e.def ELSE <<Default(e.t)>>>>}
  ELSE IF e.list THEN {IF all THEN <<"ok", [i \in 1..Len(q) |-> Conv(e.t, q[i])]>> ELSE <<"badcast", "">>}
  ELSE (IF Can(e.t, q[1]) THEN {<<"ok", <<Conv(e.t, q[1])>>>>} ELSE {<<"badcast", "">>}) \cup (IF all THEN {} ELSE {<<"badcast", "">>})
(* ---- operations *)
Enabled(S, e) ==
  CASE e.op = "new" -> e.s \notin DOMAIN S /\ (e.p # 0 => e.p \in DOMAIN S)
    [] e.op = "add" -> {e.s, e.c} \subseteq DOMAIN S /\ e.s # e.c /\ Owner(S, e.c) = {} /\ e.s \notin Family(S, e.c)
    [] e.op = "del" -> e.s \in DOMAIN S /\ Owner(S, e.s) = {}
    [] e.op \in {"reset", "keys"} -> TRUE
    [] OTHER -> e.s \in DOMAIN S
Apply(S, e) ==
  CASE e.op = "reset" -> NoSets
    [] e.op = "new" -> [i \in DOMAIN S \cup {e.s} |-> IF i = e.s THEN [p |-> e.p, vals |-> <<>>, kids |-> <<>>] ELSE S[i]]
    [] e.op = "del" -> LET left == DOMAIN S \ Family(S, e.s) IN [i \in left |-> S[i]]
    [] e.op = "set" -> [S EXCEPT ![e.s].vals = Append(Without(@, e.k), <<e.k, e.v>>)]
    [] e.op = "setl" -> [S EXCEPT ![e.s] = Append2([@ EXCEPT !.vals = Without(@, e.k)], e.k, e.l)]
    [] e.op = "insert" -> [S EXCEPT ![e.s].vals = Append(@, <<e.k, e.v>>)]
    [] e.op = "insl" -> [S EXCEPT ![e.s] = Append2(@, e.k, e.l)]
    [] e.op = "add" -> [S EXCEPT ![e.s].kids = Append(@, <<e.k, e.c>>)]
    [] e.op = "erase" -> [S EXCEPT ![e.s].vals = Without(@, e.k)]
    [] OTHER -> S
Outcomes(S, e) == IF e.op = "get" THEN Got(S[e.s], e) ELSE {<<"ok", "">>}
(* ---- what is to be seen of a set *)
SeenKey(C, k) == LET q == ValuesOf(C, k) c == KidsOf(C, k) IN
  <<IF q = <<>> THEN <<"#">> ELSE q, c, IF c = <<>> THEN 0 ELSE c[1], IF c = <<>> THEN <<TRUE>> ELSE <<>>, q # <<>> \/ c # <<>>>>
=============================================================================
