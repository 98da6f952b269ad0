-------------------------------- MODULE Values --------------------------------
(* Values: memory that is described by a type.  A value is a record           *)
(*   b : its bytes (-1 for the bytes of a container object)                  *)
(*   c : its containers, <<offset, sequence of values>>, by ascending offset *)
(* In results of operations the byte -2 stands for a byte whose content is   *)
(* not specified (padding, opaque data).                                     *)
EXTENDS RegistryOps

FREE == -2
SizeOf(R, t) == R.types[t].size

(* ------------------------------------------------------------- structure *)
(* The leaves of a type, flattened:                                          *)
(*   "d" plain data, "o" opaque data, "s" padding, "c" container and         *)
(*   "a" at the end of an array (of no size)                                 *)
It(k, o, n, t) == [k |-> k, o |-> o, n |-> n, t |-> t]
Pad(o, n) == IF n = 0 THEN <<>> ELSE <<It("s", o, n, "")>>
RECURSIVE Items(_, _, _)
Items(R, t, o) ==
  LET T == R.types[t] IN
  CASE T.cat \in {"numeric", "enum", "pointer"} -> <<It("d", o, T.size, t)>>
    [] T.cat = "opaque"    -> <<It("o", o, T.size, t)>>
    [] T.cat = "container" -> <<It("c", o, T.size, t)>>
    [] T.cat = "array" -> LET s == SizeOf(R, T.on)
                              RECURSIVE Rep(_)
                              Rep(i) == IF i = T.dim THEN <<It("a", o + T.size, 0, t)>> ELSE Items(R, T.on, o + i * s) \o Rep(i + 1)
                          IN Rep(0)
    [] T.cat = "compound" -> LET RECURSIVE Go(_, _)
                                 Go(i, cur) == IF i > Len(T.fields) THEN Pad(o + cur, T.size - cur)
                                               ELSE LET f == T.fields[i] IN
                                                    Pad(o + cur, f.off - cur) \o Items(R, f.t, o + f.off) \o Go(i + 1, f.off + SizeOf(R, f.t))
                             IN Go(1, 0)
    [] OTHER -> <<It("o", o, T.size, t)>>
OfKind(items, ks) == SelectSeq(items, LAMBDA x : x.k \in ks)
(* without the padding and opaque data at the end *)
RECURSIVE Trimmed(_)
Trimmed(items) == IF items = <<>> THEN <<>> ELSE IF items[Len(items)].k \in {"s", "o"} THEN Trimmed(SubSeq(items, 1, Len(items) - 1)) ELSE items
(* the class of each byte *)
Classes(R, t) ==
  LET its == OfKind(Items(R, t, 0), {"d", "s", "o", "c"})
      RECURSIVE Go(_)
      Go(i) == IF i > Len(its) THEN <<>> ELSE [j \in 1..its[i].n |-> its[i].k] \o Go(i + 1)
  IN Go(1)
Conts(R, t) == OfKind(Items(R, t, 0), {"c"})
On(R, t) == R.types[t].on

(* Which types have values that can be worked with.  Pointers and opaques    *)
(* need to be accepted explicitly, never within containers                   *)
RECURSIVE HasLayout(_, _, _, _)
HasLayout(R, t, ptr, opq) ==
  LET T == R.types[t] IN
  CASE T.cat = "numeric"   -> TRUE
    [] T.cat = "enum"      -> T.size <= 8
    [] T.cat = "pointer"   -> ptr
    [] T.cat = "opaque"    -> opq
    [] T.cat = "array"     -> HasLayout(R, T.on, ptr, opq)
    [] T.cat = "container" -> HasLayout(R, T.on, FALSE, FALSE)
    [] T.cat = "compound"  -> \A i \in 1..Len(T.fields) : HasLayout(R, T.fields[i].t, ptr, opq)
    [] OTHER -> FALSE
RECURSIVE HasCat(_, _, _)
HasCat(R, t, cats) ==      \* somewhere in the memory of the value, containers not entered
  LET T == R.types[t] IN
  \/ T.cat \in cats
  \/ T.cat = "array" /\ HasCat(R, T.on, cats)
  \/ T.cat = "compound" /\ \E i \in 1..Len(T.fields) : HasCat(R, T.fields[i].t, cats)

(* ------------------------------------------------------------- locations *)
Slice(V, o, n) == [b |-> SubSeq(V.b, o + 1, o + n),
                   c |-> LET s == SelectSeq(V.c, LAMBDA x : o <= x[1] /\ x[1] < o + n) IN [i \in 1..Len(s) |-> <<s[i][1] - o, s[i][2]>>]]
Splice(V, o, n, N) ==
  [b |-> [i \in 1..Len(V.b) |-> IF o < i /\ i <= o + n THEN N.b[i - o] ELSE V.b[i]],
   c |-> SelectSeq(V.c, LAMBDA x : x[1] < o) \o [i \in 1..Len(N.c) |-> <<N.c[i][1] + o, N.c[i][2]>>]
         \o SelectSeq(V.c, LAMBDA x : x[1] >= o + n)]
ContAt(V, o) == CHOOSE i \in 1..Len(V.c) : V.c[i][1] = o
RECURSIVE SubAt(_, _, _, _), PutAt(_, _, _, _, _)
(* p: <<container offset, index>> steps from the object to one of its        *)
(* elements, then offset o and size n in it                                  *)
SubAt(V, p, o, n) == IF p = <<>> THEN Slice(V, o, n)
                     ELSE SubAt(V.c[ContAt(V, p[1][1])][2][p[1][2] + 1], Tail(p), o, n)
PutAt(V, p, o, n, N) ==
  IF p = <<>> THEN Splice(V, o, n, N)
  ELSE LET i == ContAt(V, p[1][1]) IN
       [V EXCEPT !.c[i][2][p[1][2] + 1] = PutAt(@, Tail(p), o, n, N)]

RECURSIVE Shape(_, _, _), MatchV(_, _)
Shape(R, t, V) ==
  LET cs == Conts(R, t) k == Classes(R, t) IN
  /\ Len(V.b) = SizeOf(R, t) /\ Len(V.c) = Len(cs)
  /\ \A i \in 1..Len(V.b) : (k[i] = "c") <=> (V.b[i] = -1)
  /\ \A i \in 1..Len(cs) : V.c[i][1] = cs[i].o /\ \A j \in 1..Len(V.c[i][2]) : Shape(R, On(R, cs[i].t), V.c[i][2][j])
(* O is one of the values S specifies *)
MatchV(S, O) == /\ Len(S.b) = Len(O.b) /\ Len(S.c) = Len(O.c)
                /\ \A i \in 1..Len(S.b) : S.b[i] = FREE \/ S.b[i] = O.b[i]
                /\ \A i \in 1..Len(S.c) : /\ S.c[i][1] = O.c[i][1] /\ Len(S.c[i][2]) = Len(O.c[i][2])
                                          /\ \A j \in 1..Len(S.c[i][2]) : MatchV(S.c[i][2][j], O.c[i][2][j])

(* ------------------------------------------------------------ operations *)
LE(v, n) == LET RECURSIVE Go(_, _)
                Go(x, k) == IF k = 0 THEN <<>> ELSE <<x % 256>> \o Go(x \div 256, k - 1)
            IN IF v >= 0 THEN Go(v, n) ELSE LET m == Go(-(v + 1), n) IN [i \in 1..n |-> 255 - m[i]]
FirstSym(T) == CHOOSE v \in T.vals : \A w \in T.vals : w[1] = v[1] \/ Lex(v[1], w[1])
EmptyConts(R, t) == LET cs == Conts(R, t) IN [i \in 1..Len(cs) |-> <<cs[i].o, <<>>>>]
(* the bytes of the items of a type, given by f(item, index in the item) *)
ByItem(R, t, f(_, _)) ==
  LET its == OfKind(Items(R, t, 0), {"d", "s", "o", "c"})
      RECURSIVE Go(_)
      Go(i) == IF i > Len(its) THEN <<>> ELSE [j \in 1..its[i].n |-> f(its[i], j)] \o Go(i + 1)
  IN Go(1)
InitV(R, t, F) ==
  [b |-> ByItem(R, t, LAMBDA x, j : LET T == R.types[x.t] IN
                        IF x.k = "c" THEN -1
                        ELSE IF x.k = "d" /\ T.cat = "enum" /\ T.vals # {} THEN LE(FirstSym(T)[2], T.size)[j]
                        ELSE F[x.o + j]),
   c |-> EmptyConts(R, t)]
ZeroV(R, t) == [b |-> ByItem(R, t, LAMBDA x, j : IF x.k = "c" THEN -1 ELSE IF x.k = "d" THEN 0 ELSE FREE), c |-> EmptyConts(R, t)]
FreeV(R, t) == [b |-> ByItem(R, t, LAMBDA x, j : IF x.k = "c" THEN -1 ELSE FREE), c |-> EmptyConts(R, t)]
RECURSIVE Scrub(_, _, _), EqV(_, _, _, _)
(* the contents without what is in padding and opaque data *)
Scrub(R, t, V) ==
  LET k == Classes(R, t) cs == Conts(R, t) IN
  [b |-> [i \in 1..Len(V.b) |-> IF k[i] \in {"s", "o"} THEN FREE ELSE V.b[i]],
   c |-> [i \in 1..Len(V.c) |-> <<V.c[i][1], [j \in 1..Len(V.c[i][2]) |-> Scrub(R, On(R, cs[i].t), V.c[i][2][j])]>>]]
CopyV(R, t, S) == Scrub(R, t, S)
EqV(R, t, A, B) ==
  LET its == Items(R, t, 0) IN
  \A i \in 1..Len(its) : LET x == its[i] IN
    CASE x.k = "d" -> \A j \in (x.o + 1)..(x.o + x.n) : A.b[j] = B.b[j]
      [] x.k = "c" -> LET a == A.c[ContAt(A, x.o)][2] b == B.c[ContAt(B, x.o)][2] IN
                      Len(a) = Len(b) /\ \A j \in 1..Len(a) : EqV(R, On(R, x.t), a[j], b[j])
      [] OTHER -> TRUE

(* --------------------------------------------------------------- marshalling *)
DumpItems(R, t, top) == IF top THEN Trimmed(Items(R, t, 0)) ELSE Items(R, t, 0)
RECURSIVE DumpV(_, _, _, _, _)
DumpV(R, t, V, merged, top) ==
  LET its == DumpItems(R, t, top)
      RECURSIVE Go(_), Elems(_, _, _)
      Elems(on, q, j) == IF j > Len(q) THEN <<>> ELSE DumpV(R, on, q[j], merged, FALSE) \o Elems(on, q, j + 1)
      Go(i) == IF i > Len(its) THEN <<>>
               ELSE LET x == its[i] IN
                    (CASE x.k = "d" \/ (x.k \in {"s", "o"} /\ merged) -> SubSeq(V.b, x.o + 1, x.o + x.n)
                       [] x.k = "c" -> LET q == V.c[ContAt(V, x.o)][2] IN LE(Len(q), 8) \o Elems(On(R, x.t), q, 1)
                       [] OTHER -> <<>>) \o Go(i + 1)
  IN Go(1)
(* Loading: from position pos of the input, onto V; pos 0 = not enough input *)
Unread == [pos |-> 0, V |-> <<>>]
Huge(s, pos) == \E j \in (pos + 4)..(pos + 7) : s[j] # 0
Count(s, pos) == s[pos] + 256 * s[pos + 1] + 65536 * s[pos + 2] + 16777216 * (s[pos + 3] % 128)
RECURSIVE LoadV(_, _, _, _, _, _, _)
LoadV(R, t, V, s, pos, merged, top) ==
  LET its == DumpItems(R, t, top)
      RECURSIVE Go(_, _, _), Elems(_, _, _, _)
      Elems(on, q, n, ps) == IF n = 0 THEN [pos |-> ps, q |-> q]
                             ELSE LET r == LoadV(R, on, FreeV(R, on), s, ps, merged, FALSE) IN
                                  IF r.pos = 0 THEN [pos |-> 0, q |-> <<>>] ELSE Elems(on, Append(q, r.V), n - 1, r.pos)
      Go(i, W, ps) ==
        IF i > Len(its) THEN [pos |-> ps, V |-> W]
        ELSE LET x == its[i] IN
             CASE x.k = "d" \/ (x.k \in {"s", "o"} /\ merged) ->
                    IF ps + x.n - 1 > Len(s) THEN Unread
                    ELSE Go(i + 1, [W EXCEPT !.b = [j \in 1..Len(@) |-> IF x.o < j /\ j <= x.o + x.n THEN s[ps + j - x.o - 1] ELSE @[j]]], ps + x.n)
               [] x.k = "c" ->
                    IF ps + 7 > Len(s) THEN Unread
                    ELSE IF Huge(s, ps) \/ s[ps + 3] >= 128 \/ Count(s, ps) > 100000 THEN Unread
                    ELSE LET r == Elems(On(R, x.t), <<>>, Count(s, ps), ps + 8) IN
                         IF r.pos = 0 THEN Unread
                         ELSE Go(i + 1, [W EXCEPT !.c[ContAt(W, x.o)] = <<x.o, r.q>>], r.pos)
               [] OTHER -> Go(i + 1, W, ps)
  IN Go(1, V, pos)
TrailPad(R, t) == LET T == R.types[t] IN
                  IF T.cat # "compound" THEN 0
                  ELSE T.size - Max({0} \union {T.fields[i].off + SizeOf(R, T.fields[i].t) : i \in 1..Len(T.fields)})
(* loading all of s; buffers can be longer by the padding at the end *)
LoadAll(R, t, V, s, merged, checked) ==
  LET r == LoadV(R, t, V, s, 1, merged, TRUE) IN
  IF r.pos = 0 \/ (checked /\ Len(s) - r.pos + 1 \notin {0, TrailPad(R, t)}) THEN [ok |-> FALSE, V |-> V] ELSE [ok |-> TRUE, V |-> r.V]

(* ------------------------------------------------------------ byte order *)
Swappable(T) == T.cat = "enum" \/ (T.cat = "numeric" /\ ((T.num # "float" /\ T.size \in {1, 2, 4, 8}) \/ (T.num = "float" /\ T.size \in {4, 8})))
Reversed(V, o, n) == [V EXCEPT !.b = [j \in 1..Len(@) |-> IF o < j /\ j <= o + n THEN @[2 * o + n + 1 - j] ELSE @[j]]]
RECURSIVE SwapV(_, _, _), CanSwapV(_, _, _)
CanSwapV(R, t, V) ==
  LET its == Items(R, t, 0) IN
  \A i \in 1..Len(its) : LET x == its[i] IN
    CASE x.k = "d" -> Swappable(R.types[x.t])
      [] x.k = "c" -> \A j \in 1..Len(V.c[ContAt(V, x.o)][2]) : CanSwapV(R, On(R, x.t), V.c[ContAt(V, x.o)][2][j])
      [] OTHER -> TRUE
SwapV(R, t, V) ==
  LET its == OfKind(Items(R, t, 0), {"d", "c"}) IN
  FoldLeft(LAMBDA W, x : IF x.k = "d" THEN Reversed(W, x.o, x.n)
                         ELSE LET i == ContAt(W, x.o) IN
                              [W EXCEPT !.c[i][2] = [j \in 1..Len(@) |-> SwapV(R, On(R, x.t), @[j])]],
           V, its)
(* for all values of the type *)
RECURSIVE CanCompileSwap(_, _)
CanCompileSwap(R, t) ==
  LET T == R.types[t] IN
  CASE T.cat = "enum"     -> TRUE
    [] T.cat = "numeric"  -> T.size \in {1, 2, 4, 8}
    [] T.cat = "array"    -> CanCompileSwap(R, T.on)
    [] T.cat = "compound" -> \A i \in 1..Len(T.fields) : CanCompileSwap(R, T.fields[i].t)
    [] OTHER -> FALSE

(* -------------------------------------------------------------- visiting *)
NumName(T) == T.num \o ToString(T.size)
RECURSIVE CanVisit(_, _, _), Visited(_, _, _, _, _)
CanVisit(R, t, V) ==
  LET its == Items(R, t, 0) IN
  \A i \in 1..Len(its) : LET x == its[i] IN
    CASE x.k = "d" -> R.types[x.t].cat = "pointer" \/ Swappable(R.types[x.t])
      [] x.k = "c" -> \A j \in 1..Len(V.c[ContAt(V, x.o)][2]) : CanVisit(R, On(R, x.t), V.c[ContAt(V, x.o)][2][j])
      [] OTHER -> TRUE
(* base: offset of the object in what is visited (-1 in containers), size:   *)
(* of what is visited                                                        *)
RelOff(base, o, size) == IF base < 0 \/ base + o >= size THEN -1 ELSE base + o
Visited(R, t, V, base, size) ==
  LET RECURSIVE Go(_, _), Rep(_, _, _), Flds(_, _, _), Els(_, _, _)
      off(o) == RelOff(base, o, size)
      Rep(T, o, i) == IF i = T.dim THEN <<>> ELSE Go(T.on, o + i * SizeOf(R, T.on)) \o Rep(T, o, i + 1)
      Flds(T, o, i) == IF i > Len(T.fields) THEN <<>>
                       ELSE <<<<"field " \o T.fields[i].n \o " " \o T.fields[i].t, off(o + T.fields[i].off), <<>>>>>>
                            \o Go(T.fields[i].t, o + T.fields[i].off) \o Flds(T, o, i + 1)
      Els(on, q, j) == IF j > Len(q) THEN <<>> ELSE Visited(R, on, q[j], -1, size) \o Els(on, q, j + 1)
      Go(u, o) ==
        LET T == R.types[u] IN
        CASE T.cat = "numeric" -> <<<<NumName(T), off(o), SubSeq(V.b, o + 1, o + T.size)>>>>
          [] T.cat = "enum"    -> <<<<u, off(o), SubSeq(V.b, o + 1, o + T.size)>>>>
          [] T.cat = "array"   -> <<<<"array " \o u, off(o), <<>>>>>> \o Rep(T, o, 0)
          [] T.cat = "compound" -> <<<<"compound " \o u, off(o), <<>>>>>> \o Flds(T, o, 1)
          [] T.cat = "container" -> <<<<"container " \o u, off(o), <<>>>>>> \o Els(T.on, V.c[ContAt(V, o)][2], 1)
          [] OTHER -> <<<<T.cat \o " " \o u, off(o), <<>>>>>>
  IN Go(t, 0)

(* ------------------------------------------------------- visits of types *)
RECURSIVE TypeVisited(_, _)
TypeVisited(R, t) ==
  LET T == R.types[t]
      RECURSIVE Flds(_)
      Flds(i) == IF i > Len(T.fields) THEN <<>> ELSE <<"field " \o T.fields[i].n>> \o TypeVisited(R, T.fields[i].t) \o Flds(i + 1)
  IN <<T.cat \o " " \o t>> \o (CASE T.cat = "compound" -> Flds(1)
                                 [] T.cat \in {"array", "pointer", "container"} -> TypeVisited(R, T.on)
                                 [] OTHER -> <<>>)

(* ------------------------------------------------------------------- text *)
Codes(s) == [i \in 1..Len(s) |-> 31 + Ord[Ch(s, i)]]
RECURSIVE MulAdd(_, _)
MulAdd(D, c) == IF D = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, c \div 10))
                ELSE LET x == Head(D) * 256 + c IN <<x % 10>> \o MulAdd(Tail(D), x \div 10)
RECURSIVE AddOne(_)
AddOne(D) == IF D = <<>> THEN <<1>> ELSE IF Head(D) = 9 THEN <<0>> \o AddOne(Tail(D)) ELSE <<Head(D) + 1>> \o Tail(D)
Magnitude(B) == LET RECURSIVE Go(_, _)
                    Go(D, i) == IF i = 0 THEN D ELSE Go(MulAdd(D, B[i]), i - 1)
                IN Go(<<>>, Len(B))
DigitCodes(D) == IF D = <<>> THEN <<48>> ELSE [i \in 1..Len(D) |-> 48 + D[Len(D) + 1 - i]]
Decimal(B, signed) == IF signed /\ B[Len(B)] >= 128 THEN <<45>> \o DigitCodes(AddOne(Magnitude([i \in 1..Len(B) |-> 255 - B[i]])))
                      ELSE DigitCodes(Magnitude(B))
(* floating point numbers are checked for these only *)
Floats == { <<<<0, 0, 0, 0>>, "0">>, <<<<0, 0, 128, 63>>, "1">>, <<<<0, 0, 128, 191>>, "-1">>, <<<<0, 0, 0, 63>>, "0.5">>, <<<<0, 0, 0, 64>>, "2">>,
            <<<<0, 0, 192, 63>>, "1.5">>, <<<<0, 0, 122, 68>>, "1000">>,
            <<<<0, 0, 0, 0, 0, 0, 0, 0>>, "0">>, <<<<0, 0, 0, 0, 0, 0, 240, 63>>, "1">>, <<<<0, 0, 0, 0, 0, 0, 240, 191>>, "-1">>,
            <<<<0, 0, 0, 0, 0, 0, 224, 63>>, "0.5">>, <<<<0, 0, 0, 0, 0, 0, 0, 64>>, "2">>, <<<<0, 0, 0, 0, 0, 0, 248, 63>>, "1.5">> }
ANY == <<-1>>        \* a cell that is not specified
NumCell(T, B, num) ==
  IF T.num = "float" THEN LET k == {x \in Floats : x[1] = B} IN IF k = {} THEN ANY ELSE Codes((CHOOSE x \in k : TRUE)[2])
  ELSE IF T.size = 1 /\ ~num THEN B ELSE Decimal(B, T.num = "sint")
SymOf(T, B) == {v \in T.vals : LE(v[2], 4) = B}
EnumCell(T, B) == LET k == SymOf(T, B) IN
                  IF k = {} THEN Decimal(B, TRUE) ELSE Codes((CHOOSE v \in k : \A w \in k : w[1] = v[1] \/ Lex(v[1], w[1]))[1])
CsvCells(R, t, V, num) ==
  LET its == OfKind(Items(R, t, 0), {"d", "o"}) IN
  [i \in 1..Len(its) |-> LET x == its[i] T == R.types[x.t] B == SubSeq(V.b, x.o + 1, x.o + x.n) IN
     IF x.k = "o" THEN Codes("<" \o x.t \o ">") ELSE IF T.cat = "enum" THEN EnumCell(T, B) ELSE NumCell(T, B, num)]
RECURSIVE Headers(_, _, _)
Headers(R, t, name) ==
  LET T == R.types[t]
      RECURSIVE Rep(_), Flds(_)
      Rep(i) == IF i = T.dim THEN <<>> ELSE Headers(R, T.on, name \o "[" \o ToString(i) \o "]") \o Rep(i + 1)
      Flds(i) == IF i > Len(T.fields) THEN <<>> ELSE Headers(R, T.fields[i].t, name \o "." \o T.fields[i].n) \o Flds(i + 1)
  IN CASE T.cat = "array" -> Rep(0) [] T.cat = "compound" -> Flds(1) [] OTHER -> <<name>>
HasText(R, t, V) == CanVisit(R, t, V) /\ ~HasCat(R, t, {"pointer", "container"})
RECURSIVE JoinB(_, _, _)
JoinB(cells, sep, i) == IF i > Len(cells) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE sep) \o cells[i] \o JoinB(cells, sep, i + 1)

(* ------------------------------------------------------------------ calls *)
Bool(e, k) == k \in DOMAIN e /\ e[k] = TRUE
NVals == 4
NoVals == [i \in 1..NVals |-> <<>>]
LayOk(R, t, e) == IF Bool(e, "lay") THEN HasLayout(R, t, Bool(e, "ptr"), Bool(e, "opq")) ELSE HasLayout(R, t, FALSE, FALSE)
Merged(e) == ~(Bool(e, "lay") /\ Bool(e, "unmerged"))
RegOf(regs, vals, a) == regs[vals[a.v].r]
ValAt(regs, vals, a) == SubAt(vals[a.v].V, a.p, a.o, SizeOf(RegOf(regs, vals, a), a.t))
SetAt(regs, vals, a, N) == [vals EXCEPT ![a.v].V = PutAt(@, a.p, a.o, SizeOf(RegOf(regs, vals, a), a.t), N)]
VOk(vals) == [res |-> "ok", vals |-> vals, ret |-> "", any |-> FALSE]
VRet(vals, r) == [res |-> "ok", vals |-> vals, ret |-> r, any |-> FALSE]
VErr(vals) == [res |-> "error", vals |-> vals, ret |-> "", any |-> FALSE]
VFail(vals) == [res |-> "error", vals |-> vals, ret |-> "", any |-> TRUE]    \* contents at e.a not specified

ContOf(V) == V.c[1][2]          \* of a value that is a container
MkCont(V, q) == [V EXCEPT !.c[1][2] = q]
IsString(R, t) == R.types[t].kind = "/std/string"
(* values are of the same type if this is one type of one registry *)
SameAt(regs, vals, a, b) == vals[a.v].r = vals[b.v].r /\ a.t = b.t
IsElem(regs, vals, a, b) == vals[a.v].r = vals[b.v].r /\ On(RegOf(regs, vals, a), a.t) = b.t
CopyOk(regs, vals, e) == \/ SameAt(regs, vals, e.a, e.b)
                         \/ (Bool(e, "lay") \/ Bool(e, "rawp")) /\ Same(RegOf(regs, vals, e.a), e.a.t, RegOf(regs, vals, e.b), e.b.t)
ElemLayout(R, t) == HasLayout(R, On(R, t), FALSE, FALSE)
ScrubFrom(R, on, q, k) == [i \in 1..Len(q) |-> IF i < k THEN q[i] ELSE Scrub(R, on, q[i])]
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
(* the first byte of data of a value, or the size of its first container *)
KeyOf(R, t, V) == LET its == SelectSeq(Items(R, t, 0), LAMBDA x : x.k = "c" \/ (x.k = "d" /\ x.n > 0)) IN
                  IF its = <<>> THEN 0 ELSE IF its[1].k = "d" THEN V.b[its[1].o + 1] ELSE Len(V.c[1][2])
PokeV(R, t, V, bytes, mode) ==
  LET k == Classes(R, t) IN
  [V EXCEPT !.b = [i \in 1..Len(@) |-> IF (k[i] = "d" /\ mode # "pads") \/ (k[i] \in {"s", "o"} /\ mode # "data")
                                       THEN bytes[((i - 1) % Len(bytes)) + 1] ELSE @[i]]]
VOutcome(regs, vals, e) ==
  CASE e.op = "vnew" ->
         LET R == regs[e.r] t == Get(R, e.t) IN
         IF ~LayOk(R, t, e) THEN VErr(vals)
         ELSE VOk([vals EXCEPT ![e.v] = [r |-> e.r, t |-> t, V |-> InitV(R, t, [i \in 1..SizeOf(R, t) |-> (e.fill + 7 * (i - 1)) % 251])]])
    [] e.op = "vdel" -> VOk([vals EXCEPT ![e.v] = <<>>])
    [] e.op = "vpoke" -> VOk(SetAt(regs, vals, e.a, PokeV(RegOf(regs, vals, e.a), e.a.t, ValAt(regs, vals, e.a), e.bytes, e.mode)))
    [] e.op = "vzero" -> LET R == RegOf(regs, vals, e.a) IN
                         IF LayOk(R, e.a.t, e) THEN VOk(SetAt(regs, vals, e.a, ZeroV(R, e.a.t))) ELSE VErr(vals)
    [] e.op = "vcopy" -> LET R == RegOf(regs, vals, e.a) IN
                         IF ~CopyOk(regs, vals, e) \/ ~LayOk(R, e.a.t, e) THEN VErr(vals)
                         ELSE VOk(SetAt(regs, vals, e.a, CopyV(R, e.a.t, ValAt(regs, vals, e.b))))
    [] e.op = "vcmp" -> LET R == RegOf(regs, vals, e.a) IN
                        IF ~CanCast(R, e.a.t, RegOf(regs, vals, e.b), e.b.t) THEN VRet(vals, FALSE)
                        ELSE IF ~HasLayout(R, e.a.t, TRUE, FALSE) THEN VErr(vals)
                        ELSE VRet(vals, EqV(R, e.a.t, ValAt(regs, vals, e.a), ValAt(regs, vals, e.b)))
    [] e.op = "vpush" ->
         LET R == RegOf(regs, vals, e.a) on == On(R, e.a.t) V == ValAt(regs, vals, e.a) IN
         IF ~IsElem(regs, vals, e.a, e.b) \/ (~IsString(R, e.a.t) /\ ~ElemLayout(R, e.a.t)) THEN VErr(vals)
         ELSE VOk(SetAt(regs, vals, e.a, MkCont(V, ScrubFrom(R, on, Append(ContOf(V), ValAt(regs, vals, e.b)), 1))))
    [] e.op = "vset" ->
         LET R == RegOf(regs, vals, e.a) on == On(R, e.a.t) V == ValAt(regs, vals, e.a) IN
         IF IsString(R, e.a.t) \/ ~IsElem(regs, vals, e.a, e.b) THEN VErr(vals)
         ELSE VOk(SetAt(regs, vals, e.a, MkCont(V, [ContOf(V) EXCEPT ![e.i + 1] = CopyV(R, on, ValAt(regs, vals, e.b))])))
    [] e.op = "verase" ->
         LET R == RegOf(regs, vals, e.a) on == On(R, e.a.t) V == ValAt(regs, vals, e.a) q == ContOf(V)
             hits == {i \in 1..Len(q) : EqV(R, on, q[i], ValAt(regs, vals, e.b))} IN
         IF IsString(R, e.a.t) THEN VRet(vals, FALSE)
         ELSE IF ~IsElem(regs, vals, e.a, e.b) THEN VErr(vals)
         ELSE IF hits = {} THEN VRet(vals, FALSE)
         ELSE VRet(SetAt(regs, vals, e.a, MkCont(V, ScrubFrom(R, on, DropAt(q, Min(hits)), Min(hits)))), TRUE)
    [] e.op = "vdelif" ->
         LET R == RegOf(regs, vals, e.a) on == On(R, e.a.t) V == ValAt(regs, vals, e.a) q == ContOf(V)
             gone == {i \in 1..Len(q) : KeyOf(R, on, q[i]) % e.mod = e.rem} IN
         IF IsString(R, e.a.t) \/ gone = {} THEN VOk(vals)
         ELSE VOk(SetAt(regs, vals, e.a, MkCont(V, ScrubFrom(R, on, SelectSeq(q, LAMBDA x : KeyOf(R, on, x) % e.mod # e.rem), Min(gone)))))
    [] e.op = "vclear" -> LET R == RegOf(regs, vals, e.a) IN
                          IF ~IsString(R, e.a.t) /\ ~ElemLayout(R, e.a.t) THEN VErr(vals)
                          ELSE VOk(SetAt(regs, vals, e.a, MkCont(ValAt(regs, vals, e.a), <<>>)))
    [] e.op = "vcount" -> VRet(vals, Len(ContOf(ValAt(regs, vals, e.a))))
    [] e.op = "vkind" -> LET T == RegOf(regs, vals, e.a).types[e.a.t] IN
                         VRet(vals, <<T.kind = "/std/vector", IF T.kind = "/std/vector" THEN VectorSize ELSE StringSize, T.kind>>)
    [] e.op = "vget" -> IF IsString(RegOf(regs, vals, e.a), e.a.t) THEN VErr(vals) ELSE VRet(vals, ContOf(ValAt(regs, vals, e.a))[e.i + 1])
    [] e.op = "vvisit" -> LET R == RegOf(regs, vals, e.a) V == ValAt(regs, vals, e.a) IN
                          IF CanVisit(R, e.a.t, V) THEN VRet(vals, Visited(R, e.a.t, V, 0, SizeOf(R, e.a.t))) ELSE VErr(vals)
    [] e.op \in {"vdump", "vsize", "vtrunc"} ->
         LET R == RegOf(regs, vals, e.a) IN
         IF LayOk(R, e.a.t, e) THEN VRet(vals, DumpV(R, e.a.t, ValAt(regs, vals, e.a), Merged(e), TRUE)) ELSE VErr(vals)
    [] e.op = "vload" ->
         LET R == RegOf(regs, vals, e.a)
             r == LoadAll(R, e.a.t, ValAt(regs, vals, e.a), e["in"], Merged(e), e.how # "stream") IN
         IF ~LayOk(R, e.a.t, e) THEN VErr(vals)
         ELSE IF r.ok THEN VOk(SetAt(regs, vals, e.a, r.V)) ELSE VFail(vals)
    [] e.op = "veswap" -> LET R == RegOf(regs, vals, e.a) V == ValAt(regs, vals, e.a) IN
                          IF CanSwapV(R, e.a.t, V) THEN VOk(SetAt(regs, vals, e.a, SwapV(R, e.a.t, V))) ELSE VFail(vals)
    [] e.op = "vcswap" -> LET R == RegOf(regs, vals, e.a) IN
                          IF ~CanCompileSwap(R, e.a.t) THEN VErr(vals)
                          ELSE VOk(SetAt(regs, vals, e.b, SwapV(R, e.a.t, ValAt(regs, vals, e.a))))
    [] e.op = "vcsv"  -> LET R == RegOf(regs, vals, e.a) V == ValAt(regs, vals, e.a) IN
                         IF HasText(R, e.a.t, V) THEN VRet(vals, CsvCells(R, e.a.t, V, Bool(e, "num"))) ELSE VErr(vals)
    [] e.op = "vhead" -> VRet(vals, Headers(RegOf(regs, vals, e.a), e.a.t, IF Bool(e, "viaptr") THEN "*(" \o e.name \o ")" ELSE e.name))
    [] e.op = "vshape" -> LET s == TypeVisited(RegOf(regs, vals, e.a), e.a.t) IN
                          VRet(vals, IF "stop" \in DOMAIN e /\ e.stop \in 1..Len(s) THEN SubSeq(s, 1, e.stop) ELSE s)
    [] e.op = "vfield" -> LET R == RegOf(regs, vals, e.a) T == R.types[e.a.t] j == FieldNamed(T, e.f) IN
                          IF j = 0 THEN VErr(vals) ELSE VRet(vals, <<T.fields[j].t, T.fields[j].off>>)
    [] e.op = "vcast" -> LET R == RegOf(regs, vals, e.a) T == R.types[e.a.t] IN
                         IF T.cat = "numeric" /\ Swappable(T) /\ NumName(T) = e.k THEN VRet(vals, ValAt(regs, vals, e.a).b) ELSE VErr(vals)
    [] OTHER -> VOk(vals)
=============================================================================
