------------------------------- MODULE Names -------------------------------
(* Algebra of type names.  TLC strings are used as sequences of characters:  *)
(* Len, \o and SubSeq are defined on them.                                   *)
EXTENDS Naturals, Sequences, FiniteSets

Ch(s, i)     == IF i > Len(s) THEN "" ELSE SubSeq(s, i, i)
From(s, i)   == SubSeq(s, i, Len(s))
StartsWith(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
LastCh(s)      == Ch(s, Len(s))

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper   == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
IdChars == Digits \union Lower \union Upper \union {"_", " ", "<", ">"}

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord   == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]

(* Position of the first character of s (from i) that belongs to cs; 0 if none *)
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, cs) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in cs THEN i ELSE FindFrom(s, i + 1, cs)
AllIn(s, cs) == \A i \in 1..Len(s) : Ch(s, i) \in cs
Replace(s, c, by) == LET RECURSIVE Go(_)
                         Go(i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) = c THEN by ELSE Ch(s, i)) \o Go(i + 1)
                     IN Go(1)

(* ------------------------------------------------------------ ordering *)
RECURSIVE NSFrom(_, _, _)
NSFrom(a, b, i) ==
  IF i > Len(a) THEN Len(a) < Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF Ch(a, i) # Ch(b, i)
       THEN IF Ch(a, i) = "/" THEN TRUE ELSE IF Ch(b, i) = "/" THEN FALSE ELSE Ord[Ch(a, i)] < Ord[Ch(b, i)]
       ELSE NSFrom(a, b, i + 1)
(* "deeper namespaces first": the ordering of a registry                     *)
NameSort(a, b) == NSFrom(a, b, 1)
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF Ch(a, i) = Ch(b, i) THEN LexFrom(a, b, i + 1) ELSE Ord[Ch(a, i)] < Ord[Ch(b, i)]
Lex(a, b) == LexFrom(a, b, 1)
RECURSIVE NSorted(_), LSorted(_)
(* a set of names as a sorted sequence *)
NSorted(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ NameSort(x, y) IN <<m>> \o NSorted(S \ {m})
LSorted(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : y = x \/ Lex(x, y) IN <<m>> \o LSorted(S \ {m})

(* ------------------------------------------------------------ splitting *)
IsAbsolute(s) == s # "" /\ Ch(s, 1) = "/"

RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, start, i, lvl) ==
  IF i > Len(s) THEN (IF start <= Len(s) THEN <<From(s, start)>> ELSE <<>>)
  ELSE LET c == Ch(s, i) IN
       IF c = "/" /\ lvl = 0 THEN <<SubSeq(s, start, i - 1)>> \o SplitFrom(s, i + 1, i + 1, lvl)
       ELSE SplitFrom(s, start, i + 1, IF c = "<" THEN lvl + 1 ELSE IF c = ">" THEN lvl - 1 ELSE lvl)
Split(s) == LET st == IF s # "" /\ Ch(s, 1) = "/" THEN 2 ELSE 1 IN SplitFrom(s, st, st, 0)

RECURSIVE JoinNS(_)
JoinNS(seq) == IF seq = <<>> THEN "/" ELSE "/" \o Head(seq) \o JoinNS(Tail(seq))
GetTypename(s)  == LET p == Split(s) IN IF p = <<>> THEN "" ELSE p[Len(p)]
GetNamespace(s) == LET p == Split(s) IN IF p = <<>> THEN "/" ELSE JoinNS(SubSeq(p, 1, Len(p) - 1))
NormNS(s)       == IF s = "" THEN "/" ELSE IF LastCh(s) # "/" THEN s \o "/" ELSE s
InNS(s, ns, rec) == LET n == NormNS(ns) IN StartsWith(n, s) /\ (rec \/ Len(Split(From(s, Len(n) + 1))) = 1)
RelName(s, ns)  == From(s, Len(NormNS(ns)) + 1)

(* '/'-separated tokens, empty ones dropped *)
RECURSIVE TokFrom(_, _, _)
TokFrom(s, start, i) ==
  IF i > Len(s) THEN (IF start <= Len(s) THEN <<From(s, start)>> ELSE <<>>)
  ELSE IF Ch(s, i) = "/" THEN (IF i > start THEN <<SubSeq(s, start, i - 1)>> ELSE <<>>) \o TokFrom(s, i + 1, i + 1)
  ELSE TokFrom(s, start, i + 1)
Tokens(s) == TokFrom(s, 1, 1)

(* the chain of namespaces enclosing ns, root first: "/", "/A/", "/A/B/"     *)
NSChain(ns) == LET t == Tokens(ns) IN [i \in 1..(Len(t) + 1) |-> JoinNS(SubSeq(t, 1, i - 1))]

(* ------------------------------------------------------------ validity *)
IsIdent(s)      == s # "" /\ AllIn(s, IdChars)
IsValidNS(s, absolute) == /\ s # "" /\ (absolute => Ch(s, 1) = "/")
                          /\ \A i \in 1..Len(Tokens(s)) : IsIdent(Tokens(s)[i])
IntChars == Digits \union {"-"}
ValidBase(s, absolute, ints) ==
  IF ints /\ AllIn(s, IntChars) THEN TRUE
  ELSE IF absolute /\ ~IsAbsolute(s) THEN FALSE
  ELSE LET p == IF IsAbsolute(s) THEN 2 ELSE 1
           m == FindFrom(s, 1, {"*", "["})
       IN IF m # 0 THEN IsIdent(SubSeq(s, p, m - 1)) /\ AllIn(From(s, m), {"*", " "})
          ELSE IsIdent(From(s, p))

(* Recursive-descent recogniser.  Positions are 1-based; the result is       *)
(* <<valid, position where parsing stopped>>.                                *)
RECURSIVE SkipStars(_, _)
SkipStars(s, i) == IF Ch(s, i + 1) = "*" THEN SkipStars(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF Ch(s, i + 1) \in Digits THEN SkipDigits(s, i + 1) ELSE i
RECURSIVE VT(_, _, _, _), VTLoop(_, _, _, _, _), VTArgs(_, _, _, _), VTAfter(_, _, _, _)
VT(s, pos, absolute, ints) ==
  VTLoop(s, pos, IF Ch(s, pos) = "/" THEN pos + 1 ELSE pos, absolute, ints)
VTArgs(s, i, absolute, ints) ==       \* i: index of "<" or ","
  IF Ch(s, i) = ">" THEN <<TRUE, i>>
  ELSE LET r == VT(s, i + 1, TRUE, TRUE) IN
       IF ~r[1] THEN r
       ELSE IF Ch(s, r[2]) \notin {",", ">"} THEN <<FALSE, r[2]>>
       ELSE VTArgs(s, r[2], absolute, ints)
VTAfter(s, i, absolute, ints) ==      \* after the "]" or ">" at i
  LET e == SkipStars(s, i)
      n == Ch(s, e + 1)
  IN IF n = "/" THEN VTLoop(s, e + 1, e + 2, absolute, ints)
     ELSE IF n \in {"", ">", "[", ","} THEN VTLoop(s, e + 1, e + 1, absolute, ints)
     ELSE <<FALSE, e + 1>>
VTLoop(s, start, i, absolute, ints) ==
  IF i > Len(s)
  THEN IF start # Len(s) + 1 THEN <<ValidBase(From(s, start), absolute, ints), Len(s) + 1>> ELSE <<TRUE, Len(s) + 1>>
  ELSE LET c == Ch(s, i)
           tok == SubSeq(s, start, i - 1)
       IN CASE c = "/" -> IF ~ValidBase(tok, absolute, ints) THEN <<FALSE, i>> ELSE VTLoop(s, i, i + 1, absolute, ints)
            [] c = "<" -> IF ~ValidBase(tok, absolute, ints) THEN <<FALSE, i>>
                          ELSE LET r == VTArgs(s, i, absolute, ints) IN
                               IF ~r[1] THEN r ELSE VTAfter(s, r[2], absolute, ints)
            [] c = "[" -> IF start # i /\ ~ValidBase(tok, absolute, ints) THEN <<FALSE, i>>
                          ELSE IF i = 1 THEN <<FALSE, i>>
                          ELSE LET e == SkipDigits(s, i) IN
                               IF e = i \/ Ch(s, e + 1) # "]" THEN <<FALSE, i>>
                               ELSE VTAfter(s, e + 1, absolute, ints)
            [] c = "]" -> <<FALSE, i>>
            [] c \in {">", ","} -> <<ValidBase(tok, TRUE, TRUE), i>>
            [] OTHER -> VTLoop(s, start, i + 1, absolute, ints)
IsValidName(s, absolute) == s # "" /\ VT(s, 1, absolute, FALSE) = <<TRUE, Len(s) + 1>>

(* ------------------------------------------------------------ derived names *)
ToDigit == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN ToDigit[n + 1] ELSE NatStr(n \div 10) \o ToDigit[(n % 10) + 1]
IntStr(n) == IF n < 0 THEN "-" \o NatStr(0 - n) ELSE NatStr(n)
RECURSIVE StrNat(_, _)
StrNat(s, acc) == IF s = "" \/ Ch(s, 1) \notin Digits THEN acc
                  ELSE StrNat(From(s, 2), acc * 10 + (CHOOSE d \in 0..9 : ToDigit[d + 1] = Ch(s, 1)))
ArrayName(n, dim) == n \o "[" \o NatStr(dim) \o "]"
PointerName(n)    == n \o "*"
VectorName(n)     == "/std/vector<" \o n \o ">"

(* Base name + modifiers of a derived type name: <<base, <<mod, ...>>>> with *)
(* mod = <<"p">> or <<"a", dim>>; <<>> when the name cannot be parsed.       *)
RECURSIVE ParseBack(_, _, _)
LastOpen(s, e) == LET c == {i \in 1..e : Ch(s, i) = "["} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
ParseBack(s, e, mods) ==
  IF e <= 1 THEN <<>>
  ELSE CASE Ch(s, e) = "]" -> LET st == LastOpen(s, e) IN
                              IF st = 0 \/ st = e - 1 \/ \E i \in (st + 1)..(e - 1) : Ch(s, i) \notin Digits THEN <<>> ELSE ParseBack(s, st - 1, <<<<"a", StrNat(SubSeq(s, st + 1, e - 1), 0)>>>> \o mods)
         [] Ch(s, e) = "*" -> ParseBack(s, e - 1, <<<<"p", 1>>>> \o mods)
         [] Ch(s, e) = " " -> ParseBack(s, e - 1, mods)
         [] OTHER -> <<SubSeq(s, 1, e), mods>>
ParseDerived(s) == ParseBack(s, Len(s), <<>>)

(* ------------------------------------------------------------ minimal path *)
Within(h, n) == \E i \in 1..(Len(h) - Len(n) + 1) : SubSeq(h, i, i + Len(n) - 1) = n
RECURSIVE JoinSlash(_)
JoinSlash(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o JoinSlash(Tail(q))
RECURSIVE CommonLen(_, _)
CommonLen(p, q) == IF p = <<>> \/ q = <<>> THEN 0 ELSE IF Head(p) # Head(q) THEN 0 ELSE 1 + CommonLen(Tail(p), Tail(q))
(* The namespace to write in front of the base name of a type to designate   *)
(* it from a namespace: empty, relative, or absolute if it would be ambiguous *)
MinPath(full, ns) ==
  LET tns == GetNamespace(full) IN
  IF InNS(full, ns, TRUE) THEN RelName(tns, ns)
  ELSE IF Within(ns, tns) \/ Within(ns, full) THEN tns
  ELSE LET t1 == Split(tns)
           k == CommonLen(t1, Split(ns))
           RECURSIVE Back(_, _)
           Back(r, j) == IF j > 0 /\ Within(ns, r) THEN Back(t1[j] \o "/" \o r, j - 1)
                         ELSE IF j = 0 THEN tns ELSE r \o "/"
       IN IF k = 0 THEN tns ELSE Back(JoinSlash(SubSeq(t1, k + 1, Len(t1))), k)
(* what the path p + base name of full can mean in ns, from the inside out   *)
Meanings(full, p, ns) ==
  IF IsAbsolute(p) THEN {p \o GetTypename(full)}
  ELSE LET ch == NSChain(ns) IN {ch[i] \o p \o GetTypename(full) : i \in 1..Len(ch)}
=============================================================================
