------------------------------ MODULE RubyValues ------------------------------
(* Values as seen from the Ruby bindings: what Ruby objects become when they *)
(* are assigned, what is given back when values are read, and what Ruby's    *)
(* calls do to the memory.                                                   *)
(* Ruby data that is given is a record, k telling which class it is of:      *)
(*   n nil, b boolean, i integer, f float, s string, y symbol, a array,      *)
(*   h hash, w (the wrapper of) a value                                      *)
EXTENDS RubyOps, Values

(* --------------------------------------------------- numbers of any size *)
(* m: magnitude, bytes by ascending weight, without zeros at the end         *)
Below(m, k) == Len(m) <= k \div 8 \/ (Len(m) = k \div 8 + 1 /\ m[Len(m)] < 2^(k % 8))
Power(m, k) == Len(m) = k \div 8 + 1 /\ m[Len(m)] = 2^(k % 8) /\ \A i \in 1..(Len(m) - 1) : m[i] = 0
InRange(d, low, high) == IF d.neg THEN Below(d.m, low) \/ Power(d.m, low) ELSE Below(d.m, high)   \* -2^low <= d < 2^high
Negated(P) == LET nz == {i \in 1..Len(P) : P[i] # 0} IN
              IF nz = {} THEN P ELSE [i \in 1..Len(P) |-> IF i < Min(nz) THEN 0 ELSE IF i = Min(nz) THEN 256 - P[i] ELSE 255 - P[i]]
Twos(d, n) == LET P == [i \in 1..n |-> IF i <= Len(d.m) THEN d.m[i] ELSE 0] IN IF d.neg THEN Negated(P) ELSE P
RECURSIVE Stripped(_)
Stripped(B) == IF B = <<>> \/ B[Len(B)] # 0 THEN B ELSE Stripped(SubSeq(B, 1, Len(B) - 1))
(* the bytes of a double that is equal to a float *)
Widened(B) ==
  LET s == B[4] \div 128
      e == (B[4] % 128) * 2 + (B[3] \div 128)
      f == (B[3] % 128) * 65536 + B[2] * 256 + B[1]
      k == Max({0} \union {i \in 0..22 : f >= 2^i})
      E == IF e = 255 THEN 2047 ELSE IF e # 0 THEN e + 896 ELSE IF f = 0 THEN 0 ELSE k + 874
      g == 32 * (IF e # 0 \/ f = 0 THEN f ELSE (f - 2^k) * 2^(23 - k))
  IN <<0, 0, 0, g % 256, (g \div 256) % 256, (g \div 65536) % 256, ((g \div 16777216) % 16) + 16 * (E % 16), (E \div 16) + 128 * s>>
IsNaN(B) == (B[8] % 128) = 127 /\ B[7] >= 240 /\ (B[7] > 240 \/ \E i \in 1..6 : B[i] # 0)
IsInf(B) == (B[8] % 128) = 127 /\ B[7] = 240 /\ \A i \in 1..6 : B[i] = 0

(* ------------------------------------------------------------- from Ruby *)
Bytes(b) == [ok |-> TRUE, V |-> [b |-> b, c |-> <<>>]]
Good(V) == [ok |-> TRUE, V |-> V]
Fails == [ok |-> FALSE, V |-> <<>>]
(* integers are taken in the range of int, unsigned int or the 64 bit types, *)
(* then cut to the size of the type; floating point numbers lose their       *)
(* fraction first                                                            *)
NumFR(T, d) ==
  IF d.k \notin {"i", "f"} THEN Fails
  ELSE IF T.num = "float" THEN Bytes(IF T.size = 4 THEN d.f4 ELSE d.f8)
  ELSE IF ~d.bad /\ InRange(d, IF T.size = 8 THEN 63 ELSE 31,
                               IF T.size = 8 THEN (IF T.num = "uint" THEN 64 ELSE 63) ELSE IF T.num = "uint" /\ T.size # 1 THEN 32 ELSE 31)
       THEN Bytes(Twos(d, T.size)) ELSE Fails
EnumFR(T, d) ==
  LET vs == CASE d.k = "i" -> IF InRange(d, 31, 31) THEN {v \in T.vals : LE(v[2], 4) = Twos(d, 4)} ELSE {}
              [] d.k \in {"y", "s"} -> {v \in T.vals : v[1] = d.s}
              [] OTHER -> {}
  IN IF vs = {} THEN Fails ELSE Bytes(LE((CHOOSE v \in vs : TRUE)[2], T.size))
(* what is not given is not specified *)
NewV(R, t) == InitV(R, t, [i \in 1..SizeOf(R, t) |-> FREE])
CanNew(R, t) == HasLayout(R, t, TRUE, FALSE)
CanPut(R, t) == HasLayout(R, t, FALSE, FALSE)
Identical(vals, r, t, a) == vals[a.v].r = r /\ a.t = t
Castable(regs, vals, r, t, a) == CanCast(RegOf(regs, vals, a), a.t, regs[r], t)
RECURSIVE FR(_, _, _, _, _), ElemFR(_, _, _, _, _)
FR(regs, vals, r, t, d) ==
  LET R == regs[r]
      T == R.types[t]
      each(q) == [i \in 1..Len(q) |-> FR(regs, vals, r, T.on, q[i])]
      fields(q) ==       \* q: sequence of <<field, data>>
        IF \E i \in 1..Len(q) : q[i][1] = 0 THEN Fails
        ELSE LET x == [i \in 1..Len(q) |-> FR(regs, vals, r, T.fields[q[i][1]].t, q[i][2])] IN
             IF ~CanNew(R, t) \/ \E i \in 1..Len(q) : ~x[i].ok \/ ~CanPut(R, T.fields[q[i][1]].t) THEN Fails
             ELSE Good(FoldLeft(LAMBDA V, i : LET f == T.fields[q[i][1]] IN PutAt(V, <<>>, f.off, SizeOf(R, f.t), CopyV(R, f.t, x[i].V)),
                                NewV(R, t), [i \in 1..Len(q) |-> i]))
  IN
  CASE d.k = "w" -> IF Castable(regs, vals, r, t, d.a) THEN Good(ValAt(regs, vals, d.a)) ELSE Fails
    [] T.cat = "numeric" -> IF d.k = "b" THEN (IF t = "/bool" THEN Bytes(<<IF d.v THEN 1 ELSE 0>>) ELSE Fails)
                            ELSE IF d.k = "s" THEN (IF t = CharType /\ d.n = 1 THEN Bytes(<<d.ord % 256>>) ELSE Fails)
                            ELSE NumFR(T, d)
    [] T.cat = "enum" -> EnumFR(T, d)
    [] T.cat = "array" ->
         IF d.k = "a" THEN
           LET x == each(d.v) IN
           IF Len(d.v) # T.dim \/ ~CanNew(R, t) \/ \E i \in 1..Len(x) : ~x[i].ok \/ ~CanPut(R, T.on) THEN Fails
           ELSE Good(FoldLeft(LAMBDA V, i : PutAt(V, <<>>, (i - 1) * SizeOf(R, T.on), SizeOf(R, T.on), CopyV(R, T.on, x[i].V)), NewV(R, t), [i \in 1..Len(x) |-> i]))
         ELSE IF d.k = "s" /\ T.on = CharType /\ Len(d.b) < T.dim /\ \A i \in 1..Len(d.b) : d.b[i] # 0
              THEN Bytes([i \in 1..T.dim |-> IF i <= Len(d.b) THEN d.b[i] ELSE 0])
         ELSE Fails
    [] T.cat = "container" ->
         IF d.k = "a" THEN
           LET x == [i \in 1..Len(d.v) |-> ElemFR(regs, vals, r, T.on, d.v[i])] IN
           IF ~CanNew(R, t) \/ \E i \in 1..Len(x) : ~x[i].ok THEN Fails
           ELSE Good(MkCont(NewV(R, t), [i \in 1..Len(x) |-> Scrub(R, T.on, x[i].V)]))
         ELSE IF d.k = "s" /\ IsString(R, t) THEN Good(MkCont(NewV(R, t), [i \in 1..Len(d.b) |-> [b |-> <<d.b[i]>>, c |-> <<>>]]))
         ELSE Fails
    [] T.cat = "compound" ->
         IF d.k = "h" THEN fields([i \in 1..Len(d.v) |-> <<FieldNamed(T, d.v[i][1]), d.v[i][2]>>])
         ELSE IF d.k = "a" /\ Len(d.v) <= Len(T.fields) THEN fields([i \in 1..Len(d.v) |-> <<i, d.v[i]>>])
         ELSE Fails
    [] OTHER -> Fails
(* elements of containers *)
ElemFR(regs, vals, r, on, d) ==
  LET T == regs[r].types[on]
      same == d.k = "w" /\ Identical(vals, r, on, d.a)
  IN CASE T.cat = "numeric" /\ on \notin {"/bool", CharType} -> IF same THEN Good(ValAt(regs, vals, d.a)) ELSE NumFR(T, d)
       [] T.cat \in {"enum", "pointer", "opaque", "null"} -> IF same THEN Good(ValAt(regs, vals, d.a)) ELSE Fails
       [] OTHER -> FR(regs, vals, r, on, d)
(* without any conversion *)
RawFR(regs, vals, r, t, d, pk) ==
  LET T == regs[r].types[t] IN
  CASE d.k = "w" -> IF (pk = "vector" /\ Identical(vals, r, t, d.a)) \/ (pk # "vector" /\ Castable(regs, vals, r, t, d.a)) THEN Good(ValAt(regs, vals, d.a)) ELSE Fails
    [] T.cat = "numeric" -> NumFR(T, d)
    [] T.cat = "enum" /\ pk # "vector" -> EnumFR(T, d)
    [] OTHER -> Fails

(* --------------------------------------------------------------- to Ruby *)
UpToNul(B) == LET z == {i \in 1..Len(B) : B[i] = 0} IN IF z = {} THEN B ELSE SubSeq(B, 1, Min(z) - 1)
Flat(V) == LET q == ContOf(V) IN [i \in 1..Len(q) |-> q[i].b[1]]
Wrapper(t) == <<"w", t>>
Elems(R, t, V) == LET T == R.types[t] s == SizeOf(R, T.on) IN
                  IF T.cat = "array" THEN [i \in 1..T.dim |-> SubAt(V, <<>>, (i - 1) * s, s)] ELSE ContOf(V)
NumRb(t, T, B) ==
  IF t = "/bool" THEN <<"b", \E i \in 1..Len(B) : B[i] # 0>>
  ELSE IF T.num = "float" THEN (LET D == IF Len(B) = 4 THEN Widened(B) ELSE B IN IF IsNaN(D) THEN <<"nan">> ELSE <<"f", D>>)
  ELSE LET neg == T.num = "sint" /\ B[Len(B)] >= 128 IN <<"i", neg, Stripped(IF neg THEN Negated(B) ELSE B)>>
SymbolOf(T, B) == LET k == SymOf(T, B) IN IF k = {} THEN "" ELSE (CHOOSE v \in k : \A w \in k : w[1] = v[1] \/ Lex(v[1], w[1]))[1]
RECURSIVE ToRb(_, _, _), Simple2(_, _, _, _)
ToRb(R, t, V) ==
  LET T == R.types[t] IN
  CASE T.cat = "numeric" -> NumRb(t, T, V.b)
    [] T.cat = "enum" -> IF SymOf(T, V.b) = {} THEN <<"n">> ELSE <<"y", SymbolOf(T, V.b)>>
    [] T.cat = "pointer" -> IF \A i \in 1..Len(V.b) : V.b[i] = 0 THEN <<"n">> ELSE Wrapper(t)
    [] IsText(R, t) -> <<"s", IF T.cat = "array" THEN UpToNul(V.b) ELSE Flat(V)>>
    [] T.cat \in {"array", "container"} /\ Conv(R, T.on) -> LET q == Elems(R, t, V) IN <<"a", [i \in 1..Len(q) |-> ToRb(R, T.on, q[i])]>>
    [] OTHER -> Wrapper(t)
FieldV(R, t, V, i) == LET f == R.types[t].fields[i] IN SubAt(V, <<>>, f.off, SizeOf(R, f.t))
Parts(R, t, V) ==
  LET T == R.types[t] IN
  CASE T.cat = "compound" -> [i \in 1..Len(T.fields) |-> ToRb(R, T.fields[i].t, FieldV(R, t, V, i))]
    [] T.cat \in {"array", "container"} -> LET q == Elems(R, t, V) IN [i \in 1..Len(q) |-> ToRb(R, T.on, q[i])]
    [] OTHER -> <<>>
(* plain Ruby data; <<"error">> if there is none *)
PackCode(T) == CASE T.num = "float" -> IF T.size = 4 THEN "e" ELSE "E"
                 [] T.size = 1 -> IF T.num = "uint" THEN "C" ELSE "c"
                 [] T.size = 2 -> IF T.num = "uint" THEN "S<" ELSE "s<"
                 [] T.size = 4 -> IF T.num = "uint" THEN "L<" ELSE "l<"
                 [] OTHER -> IF T.num = "uint" THEN "Q<" ELSE "q<"
RECURSIVE FlatB(_, _)
FlatB(q, i) == IF i > Len(q) THEN <<>> ELSE q[i].b \o FlatB(q, i + 1)
NoSimple == <<"error">>
Simple2(R, t, V, o) ==
  LET T == R.types[t]
      all(k, q) == IF \E i \in 1..Len(q) : (IF k = "h" THEN q[i][2] ELSE q[i]) = NoSimple THEN NoSimple ELSE <<k, q>>
  IN
  CASE T.cat = "numeric" ->
         LET x == NumRb(t, T, V.b) IN
         IF T.num # "float" \/ o.sf = "" THEN x
         ELSE IF x[1] = "nan" THEN (IF o.sf = "nil" THEN <<"n">> ELSE <<"s", Codes("NaN")>>)
         ELSE IF IsInf(x[2]) THEN (IF o.sf = "nil" THEN <<"n">> ELSE <<"s", Codes(IF x[2][8] >= 128 THEN "-Infinity" ELSE "Infinity")>>)
         ELSE x
    [] T.cat = "enum" -> <<"s", Codes(SymbolOf(T, V.b))>>
    [] T.cat = "container" /\ IsString(R, t) -> <<"s", Flat(V)>>
    [] T.cat \in {"array", "container"} ->
         LET q == Elems(R, t, V) IN
         IF o.pack /\ R.types[T.on].cat = "numeric" THEN <<"p", PackCode(R.types[T.on]), Len(q), FlatB(q, 1)>>
         ELSE all("a", [i \in 1..Len(q) |-> Simple2(R, T.on, q[i], o)])
    [] T.cat = "compound" -> all("h", [i \in 1..Len(T.fields) |-> <<T.fields[i].n, Simple2(R, T.fields[i].t, FieldV(R, t, V, i), o)>>])
    [] OTHER -> NoSimple

(* where the values of type w are within a value *)
RECURSIVE Find(_, _, _, _, _, _)
Find(R, t, V, p, o, w) ==
  LET T == R.types[t]
      q == IF T.cat = "array" \/ (T.cat = "container" /\ ~IsString(R, t)) THEN Elems(R, t, V) ELSE <<>>
  IN (IF t = w THEN {<<p, o>>} ELSE {}) \union
     CASE T.cat = "compound" -> UNION {Find(R, T.fields[i].t, FieldV(R, t, V, i), p, o + T.fields[i].off, w) : i \in 1..Len(T.fields)}
       [] T.cat = "array" -> UNION {Find(R, T.on, q[i], p, o + (i - 1) * SizeOf(R, T.on), w) : i \in 1..Len(q)}
       [] T.cat = "container" -> UNION {Find(R, T.on, q[i], Append(p, <<o, i - 1>>), 0, w) : i \in 1..Len(q)}
       [] OTHER -> {}

(* ------------------------------------------------------------------ calls *)
Lay(R, t, e) == HasLayout(R, t, Bool(e, "ptr"), Bool(e, "opq"))
UnMerged(e) == ~Bool(e, "unmerged")
Slot(vals, v, r, t, V) == VOk([vals EXCEPT ![v] = [r |-> r, t |-> t, V |-> V]])
RECURSIVE GoodPrefix(_)
GoodPrefix(x) == IF x = <<>> \/ ~Head(x).ok THEN <<>> ELSE <<Head(x).V>> \o GoodPrefix(Tail(x))
Repeat(x, n) == [i \in 1..n |-> x]
Chunks(s, n, k) == [i \in 1..k |-> [b |-> SubSeq(s, (i - 1) * n + 1, i * n), c |-> <<>>]]
RVNew(regs, vals, e) ==
  LET R == regs[e.r]
      t == Get(R, e.t)
      new == IF CanNew(R, t) THEN Slot(vals, e.v, e.r, t, NewV(R, t)) ELSE VErr(vals)
  IN CASE e.how = "zero" -> IF CanNew(R, t) THEN Slot(vals, e.v, e.r, t, InitV(R, t, [i \in 1..SizeOf(R, t) |-> 0])) ELSE VErr(vals)
       [] e.how = "init" -> IF e.d.k = "n" \/ (e.d.k = "b" /\ ~e.d.v) THEN new
                            ELSE LET x == FR(regs, vals, e.r, t, e.d) IN IF x.ok THEN Slot(vals, e.v, e.r, t, x.V) ELSE VErr(vals)
       [] e.how = "wrap" -> LET x == LoadAll(R, t, NewV(R, t), e["in"], TRUE, TRUE) IN
                            IF ~CanPut(R, t) \/ ~x.ok THEN VErr(vals) ELSE Slot(vals, e.v, e.r, t, x.V)
       [] OTHER -> new
RVSet(regs, vals, e) ==
  LET r == vals[e.a.v].r
      R == regs[r]
      x == IF e.op = "vmut" THEN FR(regs, vals, r, e.a.t, e.d)
           ELSE IF e.how = "raw" THEN RawFR(regs, vals, r, e.a.t, e.d, e.pk)
           ELSE IF e.pk = "vector" THEN ElemFR(regs, vals, r, e.a.t, e.d) ELSE FR(regs, vals, r, e.a.t, e.d)
  IN IF Bool(e, "bad") \/ ~x.ok \/ ~CanPut(R, e.a.t) THEN VErr(vals) ELSE VOk(SetAt(regs, vals, e.a, CopyV(R, e.a.t, x.V)))
RVCont(regs, vals, e) ==      \* operations on the container at e.a
  LET r == vals[e.a.v].r
      R == regs[r]
      t == e.a.t
      on == On(R, t)
      V == ValAt(regs, vals, e.a)
      q == ContOf(V)
      str == IsString(R, t)
      put(new) == SetAt(regs, vals, e.a, MkCont(V, new))
      at(x) == ElemFR(regs, vals, r, on, x)
  IN
  CASE e.op = "vpush" ->
         LET bytes == e.ds[1].b
             x == [i \in 1..Len(e.ds) |-> at(e.ds[i])]
             new == IF e.how = "text" THEN Chunks(bytes, 1, Len(bytes)) ELSE GoodPrefix(x)
             added == put(ScrubFrom(R, on, q \o new, 1))
         IN IF new # <<>> /\ ~str /\ ~ElemLayout(R, t) THEN VErr(vals)
            ELSE IF e.how # "text" /\ \E i \in 1..Len(x) : ~x[i].ok THEN VErr(added) ELSE VOk(added)
    [] e.op = "verase" ->
         LET x == at(e.d)
             hits == {i \in 1..Len(q) : EqV(R, on, q[i], x.V)}
         IN IF ~x.ok THEN VErr(vals)
            ELSE IF str \/ hits = {} THEN VRet(vals, FALSE)
            ELSE VRet(put(ScrubFrom(R, on, DropAt(q, Min(hits)), Min(hits))), TRUE)
    [] e.op = "vdelif" ->
         LET gone == {i \in 1..Len(q) : (i - 1) % e.mod = e.rem}
             kept == SelectSeq([i \in 1..Len(q) |-> <<i, q[i]>>], LAMBDA x : x[1] \notin gone)
             new == [i \in 1..Len(kept) |-> kept[i][2]]
         IN IF str THEN VRet(vals, <<>>)
            ELSE VRet(IF gone = {} THEN vals ELSE put(ScrubFrom(R, on, new, Min(gone))), [i \in 1..Len(q) |-> ToRb(R, on, q[i])])
    [] e.op = "vclear" -> IF ~str /\ ~ElemLayout(R, t) THEN VErr(vals) ELSE VOk(put(<<>>))
    [] e.op = "vslice" ->
         IF e.i < 0 \/ e.i + e.k > Len(q) \/ ~ElemLayout(R, t) THEN VErr(vals)
         ELSE Slot(vals, e.v, r, t, MkCont(NewV(R, t), ScrubFrom(R, on, SubSeq(q, e.i + 1, e.i + e.k), 1)))
    [] e.op = "vofsize" ->
         LET x == FR(regs, vals, r, on, e.d) IN
         IF e.k = 0 /\ Bool(e, "plain") THEN Slot(vals, e.v, r, t, NewV(R, t))
         ELSE IF ~x.ok \/ ~ElemLayout(R, t) THEN VErr(vals)
         ELSE Slot(vals, e.v, r, t, MkCont(NewV(R, t), Repeat(Scrub(R, on, x.V), e.k)))
    [] e.op = "vmemcpy" ->
         LET n == SizeOf(R, on) s == e["in"] IN
         IF Len(s) % n # 0 THEN VErr(vals) ELSE VOk(put(Chunks(s, n, Len(s) \div n)))
RVOutcome(regs, vals, e) ==
  IF e.op = "vnew" THEN RVNew(regs, vals, e)
  ELSE IF e.op = "vdel" THEN VOk([vals EXCEPT ![e.v] = <<>>])
  ELSE
  LET R == RegOf(regs, vals, e.a)
      t == e.a.t
      V == ValAt(regs, vals, e.a)
  IN
  CASE e.op \in {"vset", "vmut"} -> RVSet(regs, vals, e)
    [] e.op = "vmeth" -> VOk([vals EXCEPT ![e.a.v].V = Scrub(R, vals[e.a.v].t, @)])
    [] e.op = "vget" -> VRet(vals, <<ToRb(R, t, V), Parts(R, t, V)>>)
    [] e.op = "vfind" -> VRet(vals, Find(R, t, V, e.a.p, e.a.o, Get(R, e.t)))
    [] e.op = "vptr" -> VRet(vals, "same")
    [] e.op = "vsimple" -> LET x == Simple2(R, t, V, [sf |-> IF "sf" \in DOMAIN e THEN e.sf ELSE IF Bool(e, "json") THEN "nil" ELSE "", pack |-> Bool(e, "pack")]) IN
                           IF x = NoSimple THEN VErr(vals) ELSE VRet(vals, x)
    [] e.op = "vdump" -> IF Lay(R, t, e) THEN VRet(vals, DumpV(R, t, V, UnMerged(e), TRUE)) ELSE VErr(vals)
    [] e.op = "vsize" -> VRet(vals, IF CanPut(R, t) THEN Len(DumpV(R, t, V, TRUE, TRUE)) ELSE -1)
    [] e.op = "vload" -> LET x == LoadAll(R, t, V, e["in"], UnMerged(e), TRUE) IN
                         IF ~Lay(R, t, e) THEN VErr(vals) ELSE IF x.ok THEN VOk(SetAt(regs, vals, e.a, x.V)) ELSE VFail(vals)
    [] e.op = "vcopy" -> IF CanCast(RegOf(regs, vals, e.b), e.b.t, R, t) /\ CanPut(R, t)
                         THEN VOk(SetAt(regs, vals, e.a, CopyV(R, t, ValAt(regs, vals, e.b)))) ELSE VErr(vals)
    [] e.op = "vdup" -> IF CanPut(R, t) THEN Slot(vals, e.v, vals[e.a.v].r, t, CopyV(R, t, V)) ELSE VErr(vals)
    [] e.op = "vcmp" -> IF ~CanCast(RegOf(regs, vals, e.b), e.b.t, R, t) \/ ~CanNew(R, t) THEN VErr(vals)
                        ELSE VRet(vals, EqV(R, t, V, ValAt(regs, vals, e.b)))
    [] e.op = "vcast" -> IF CanCast(R, t, regs[e.r2], Get(regs[e.r2], e.t2)) THEN VRet(vals, "same") ELSE VErr(vals)
    [] e.op = "vzero" -> IF CanPut(R, t) THEN VOk(SetAt(regs, vals, e.a, ZeroV(R, t))) ELSE VErr(vals)
    [] e.op = "veswap" -> IF CanSwapV(R, t, V) THEN VOk(SetAt(regs, vals, e.a, SwapV(R, t, V))) ELSE VFail(vals)
    [] e.op = "vcswap" -> IF CanCompileSwap(R, t) THEN Slot(vals, e.v, vals[e.a.v].r, t, Scrub(R, t, SwapV(R, t, V))) ELSE VErr(vals)
    [] e.op = "vcsv" -> IF HasText(R, t, V) THEN VRet(vals, <<CsvCells(R, t, V, TRUE), Headers(R, t, e.name)>>) ELSE VErr(vals)
    [] e.op = "vhold" -> VOk(vals)
    [] OTHER -> RVCont(regs, vals, e)

(* --------------------------------------------------------------- wrappers *)
(* the value that an operation modifies, by replacing what it contains       *)
RootOf(vals, v) == [v |-> v, p |-> <<>>, o |-> 0, t |-> vals[v].t]
Modifies(vals, e) ==
  CASE e.op \in {"vset", "vload", "vcopy", "vzero", "vpush", "verase", "vdelif", "vclear", "vmemcpy"} -> <<e.a>>
    [] e.op \in {"vmut", "vmeth"} -> <<RootOf(vals, e.a.v)>>
    [] OTHER -> <<>>
(* in an element of one of the containers of the value at a *)
InElement(regs, vals, a, x) ==
  /\ x.v = a.v /\ Len(x.p) > Len(a.p) /\ SubSeq(x.p, 1, Len(a.p)) = a.p
  /\ LET o == x.p[Len(a.p) + 1][1] IN a.o <= o /\ o < a.o + SizeOf(RegOf(regs, vals, a), a.t)
Replaces(e) == IF e.op \in {"vnew", "vdel", "vdup", "vcswap", "vslice", "vofsize"} /\ e.res = "ok" THEN {e.v} ELSE {}
(* held: [v, h] with h one of <<>>, <<"inv">> (the wrapper refuses to be     *)
(* used), <<"at", location>>; new: what is seen after e                      *)
Held(regs, vals, e, held, new) ==
  LET m == Modifies(vals, e) IN
  CASE held.h = <<>> -> new = <<>>
    [] held.v \in Replaces(e) -> new = <<>>
    [] held.h = <<"inv">> -> new = <<"inv">>
    [] m # <<>> /\ InElement(regs, vals, m[1], held.h[2]) -> new \in {<<"inv">>, held.h}
    [] OTHER -> new = held.h
=============================================================================
