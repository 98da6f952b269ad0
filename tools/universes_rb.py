"""The small universes of Ruby calls that are explored exhaustively (RubyMC.tla)."""


def num(n, size=4, num="sint", r=1): return dict(op="num", r=r, n=n, size=size, num=num)
def cmp(n, fields, r=1, **kw):
    return dict(dict(op="cmp", r=r, n=n, fields=[dict(zip(("n", "t", "off"), f)) if not isinstance(f, dict) else f for f in fields]), **kw)
def enu(n, vals, r=1): return dict(op="enu", r=r, n=n, vals=vals, how="add")
def cont(of, r=1, **kw): return dict(dict(op="cont", r=r, kind="/std/vector", of=of), **kw)
def alias(base, name, r=1): return dict(op="alias", r=r, base=base, name=name)
def op(op_, r=1, **kw): return dict(dict(op=op_, r=r), **{k.rstrip("_"): v for k, v in kw.items()})


def universe(name, thorough=False):
    d = 1 if thorough else 0
    if name == "ruby":
        return dict(depth=3 + d, prefix=[num("/A"), num("/N/A", 8, r=2)], ops=[
            cmp("/C", [("f", "/A", 0), ("g", "/A*", 8)]), cmp("/C", [("f", "/A"), ("g", "/A[2]")]), cmp("/C", [("f", "/A"), ("g", "/A", 8), ("h", "/A")]), cmp("/C", [dict(n="f", t="/N/A", o=True, fr=2)]),
            cmp("/C", [("f", "/A*"), ("g", "/Nope[2]")]), enu("/E", [["a"], ["b", 5], ["c"]]), enu("/E", [["a", 1], ["a", 2]]), enu("/C", []),
            op("toptr", n="/A"), op("arr", of="A", dim=2, o=True), op("arr", of="/A[2]", dim=3), op("build", n="/A[2]*"), op("build", n="/A[x"),
            cont("/A"), cont("/C*"), cont("/N/A", o=True, fr=2), op("cont", kind="/std/string", of="/A"), op("cont", kind="/std/map", of="/A"),
            alias("/A", "/B"), alias("/C", "/B"), alias("/Nope", "/B"), alias("/A", "B-"), op("removeAlias", name="/B"), op("clearAliases"),
            op("remove", n="/A"), op("remove", n="/C"), op("resize", sizes=[["/A", 8]], o=True), op("resize", sizes=[["/C", 64], ["/Nope", 1]]),
            op("addt", from_=2, n="/N/A")])
    if name == "rubies":
        return dict(depth=3 + d, prefix=[num("/A"), cmp("/C", [("f", "/A[2]")]), alias("/C", "/X"), num("/A", r=2), num("/B", 8, r=2)], ops=[
            op("merge", from_=2), op("merge", r=2, from_=1), op("addt", r=2, from_=1, n="/C"), op("addt", r=2, from_=1, n="/X"), cmp("/C", [("f", "/A")], r=2),
            cmp("/C", [("f", "/A[2]")], r=2), num("/X", r=2), op("dup", d=3), op("minimal", n="/C", d=3), op("minimal", n="X", al=False, d=3), op("minimal", n="/Nope", d=3),
            op("minreg", n="/C", d=3), op("minimal2", auto=2, d=3), op("minimal2", auto=2, keep=True, d=3), op("typexml", n="/X", d=3),
            op("tlbtrip", d=3, how="xml"), op("tlbtrip", d=3, how="file"), op("meta", n="/C", f="f", mode="set", k="doc", v=["a", "b"]), op("meta", r=2, n="/A", mode="add", k="doc", v=["c"]),
            op("tlbload", r=2, doc=[dict(k="numeric", name="/A", category="sint", size="4", source_id="f1"), dict(k="alias", name="/Y", source="/A")], how="auto"),
            op("tlbload", r=2, doc=[dict(k="numeric", name="/D", category="sint", size="4", source_id="f1"), dict(k="alias", name="/Y", source="/D")], how="file"),
            op("tlbload", r=2, doc=[dict(k="numeric", name="/A", category="uint", size="4")], how="auto"),
            op("srcof", n="/A"), op("srcof", from_=2, n="/B"), op("remove", n="/A"), op("same", r2=2), op("same", r=3, r2=1)])
    if name == "rubyns":
        paths = [[["A"]], [["N"]], [["N"], ["A"]], [["N"], ["Ab_c"]], [["Tp", "-1", "/A"]], [["Tp", "-1,/A"]], [["Tp", "-1", "/N/A"]], [["N"], ["M"], ["A"]], [["M"], ["A"]]]
        const = [[["A"]], [["N"], ["A"]], [["N"], ["AbC"]], [["N"], ["M"], ["A"]]]
        return dict(depth=3 + d, prefix=[num("/A")], ops=[
            num("/N/A"), cmp("/N/Ab_c", [("f", "/A")]), num("/N/M/A", 8), cmp("/Tp<-1,/A>", [("f", "/A")]), cmp("/Tp<-1,/N/A>", []), num("/N"), alias("/A", "/M/A"), alias("/N/A", "/N/Ab_c"), op("build", n="/A[2]"),
            op("remove", n="/A"), op("remove", n="/N/A"),
            op("export", how="mod", paths=paths), op("export", how="ns", paths=paths), op("export", how="mod", paths=const, const=True), op("export", how="ns", paths=const, const=True),
            op("export", how="mod", paths=paths, x2r=True), op("export", how="ns", paths=paths, hide="/N/A"), op("export", how="mod", paths=paths, sub=True), op("export", how="mod", paths=paths, mod="N")])
    raise KeyError(name)


# ------------------------------------------------------------------- values
def i(x):
    m, v = [], abs(x)
    while v:
        m.append(v & 255)
        v >>= 8
    import struct
    return dict(k="i", neg=x < 0, m=m, bad=False, f4=list(struct.pack("<f", x)), f8=list(struct.pack("<d", x)))
def f(x):
    import struct
    return dict(i(int(x)), k="f", f4=list(struct.pack("<f", x)), f8=list(struct.pack("<d", x)))
def s(x): return dict(k="s", b=list(x.encode()), n=len(x), ord=ord(x[0]) if x else 0, s=x if x.isascii() else "")
def y(x): return dict(k="y", s=x)
def a(*xs): return dict(k="a", v=list(xs))
def h(**kw): return dict(k="h", v=[[k, v] for k, v in kw.items()])
def w(loc): return dict(k="w", a=loc)
NIL = dict(k="n")
def L(v, t, o=0, p=()): return dict(v=v, t=t, o=o, p=[list(x) for x in p])
def new(v, t, d=None, **kw): return dict(dict(op="vnew", v=v, r=1, t=t, how="init" if d else "zero", **({"d": d} if d else {})), **kw)
def put(at, d, pk="field", how="[]=", **kw): return dict(op="vset", a=at, d=d, pk=pk, how=how, seed=0, **kw)
def call(op_, at, b=None, **kw):
    return dict(dict(op=op_, a=at, seed=0), **dict({} if b is None else {"b": b}, **{k.rstrip("_"): x for k, x in kw.items()}))
def push(at, *ds, how="push"): return call("vpush", at, how=how, ds=list(ds))
def reads(at): return [call("vget", at), call("vsimple", at), call("vsimple", at, json=True, pack=True), call("vdump", at), call("vsize", at)]


def value_universe(name, thorough=False):
    d = 1 if thorough else 0
    if name == "things":        # compounds of everything that is converted
        T, S = "/T", "/S"
        t, u, sv = L(1, T), L(2, T), L(3, S)
        ti, tb, te, ts, tz, tc = L(1, "/u1", 0), L(1, "/bool", 1), L(1, "/E", 4), L(1, S, 8), L(1, "/std/string", 16), L(1, "/int8_t[4]", 48)
        return dict(depth=2 + d, prefix=[num("/int8_t", 1), num("/u1", 1, "uint"), num("/i4"), num("/bool", 1, "uint"), enu("/E", [["A", 1], ["B", 7]]), dict(op="cont", r=1, kind="/std/string", of="/int8_t"),
                                         cmp(S, [("x", "/i4", 0), ("y", "/u1", 4)]), op("arr", of="/int8_t", dim=4),
                                         cmp(T, [("i", "/u1", 0), ("b", "/bool", 1), ("e", "/E", 4), ("s", S, 8), ("z", "/std/string", 16), ("c", "/int8_t[4]", 48)]),
                                         new(1, T), new(2, T), new(3, S, h(x=i(-5), y=i(200))), put(te, y("A")), put(L(2, "/E", 4), y("B"))], ops=[
            put(ti, i(7)), put(ti, i(300)), put(ti, i(-1), how="method"), put(ti, f(2.75)), put(ti, s("a")), put(ti, NIL), put(tb, dict(k="b", v=True)), put(tb, i(2), how="set"),
            put(te, y("B"), how="method"), put(te, s("B")), put(te, i(7)), put(te, i(2)), put(te, y("C")), put(te, w(L(2, "/E", 4))), put(ts, h(x=i(9))), put(ts, h(x=i(9), q=i(1))), put(ts, a(i(1), i(2)), how="set"),
            put(ts, a(i(1), i(2), i(3))), put(ts, w(sv)), put(ts, w(L(2, S, 8)), how="raw"), put(ts, w(ti)), put(ts, h(x=i(2**31))), put(ts, h(x=i(-2**31), y=i(255))),
            put(tz, s("hello")), put(tz, s("h\u00e9"), how="method"), put(tz, s("")), put(tz, a(i(65), i(66))), put(tz, w(L(2, "/std/string", 16))), put(tz, i(1)),
            put(tc, s("abc")), put(tc, s("abcd")), put(tc, s("\u00e9"), how="method"), put(tc, a(i(1), i(2), i(0), i(0))), put(tc, w(L(2, "/int8_t[4]", 48))), put(L(1, "/int8_t", 49, ()), i(66), pk="array"),
            put(L(1, "/int8_t", 48), s("z"), pk="array"), put(L(2, "/std/string", 16), s("other")), put(L(2, "/int8_t[4]", 48), s("x")), put(L(1, "/i4", 8), i(77)), put(L(1, "/u1", 12), i(78), how="raw"),
            call("vmut", tz, d=s("mut")), call("vmut", tc, d=s("m")), call("vmeth", t), call("vcopy", t, u), call("vcopy", u, t), call("vcopy", ts, sv), call("vcopy", sv, ts), call("vcmp", t, u), call("vcmp", ts, sv),
            call("vzero", t), call("vzero", ts), call("vdup", t, v=4), call("vdup", ts, v=3), call("veswap", t), call("vcswap", ts, v=3), call("vload", sv, in_=[1, 2, 3, 4, 5]), call("vload", sv, in_=[1, 2, 3, 4]),
            call("vload", ts, in_=[1, 2, 3, 4, 5, 0, 0, 0]), new(2, T, h(i=i(3), b=i(1), e=y("A"), s=w(sv), z=s("q"), c=s("r"))), new(2, T, a(i(3), i(1), y("A"), a(i(1), i(2)), s("q"), s("rrrr"))), call("vhold", ts, h=1)] + reads(t))
    if name == "elements":      # wrappers of elements of containers
        V, S, W = "/std/vector</S>", "/S", "/std/vector</std/vector</S>>"
        v, sv, wv = L(1, V), L(2, S), L(3, W)
        e0, e1, n00 = L(1, S, 0, [(0, 0)]), L(1, S, 0, [(0, 1)]), L(3, S, 0, [(0, 0), (0, 0)])
        n0 = L(3, V, 0, [(0, 0)])
        return dict(depth=3 + d, prefix=[num("/u1", 1, "uint"), num("/u2", 2, "uint"), cmp(S, [("a", "/u1", 0), ("b", "/u2", 2)]), cont(S), cont(V), new(1, V, a(h(a=i(1), b=i(2)))), new(2, S, h(a=i(3), b=i(4))), new(3, W)], ops=[
            push(v, w(sv), how="one"), push(v, h(a=i(8), b=i(9)), a(i(1), i(2))), push(v, i(3)), push(wv, w(v)), push(n0, w(sv)), put(e0, w(sv), pk="vector"), put(e1, h(a=i(5), b=i(6)), pk="vector", how="set"),
            put(L(1, "/u1", 0, [(0, 0)]), i(77)), put(L(3, "/u2", 2, [(0, 0), (0, 0)]), i(99), how="method"), put(n0, a(a(i(6), i(6))), pk="vector"), put(e0, i(1), pk="vector"),
            call("verase", v, d=w(sv)), call("verase", v, d=a(i(1), i(2))), call("verase", v, d=i(0)), call("vdelif", v, mod=2, rem=0), call("vdelif", v, mod=2, rem=1), call("vclear", v), call("vclear", n0), call("vcopy", v, n0), call("vcopy", n0, v),
            call("vcopy", e0, sv), call("vcopy", sv, e0), call("vzero", v), call("vzero", wv), call("vzero", e0), call("vload", v, in_=[1, 0, 0, 0, 0, 0, 0, 0, 4, 4, 4, 4]), call("vload", e0, in_=[4, 4, 5, 5]),
            call("vslice", v, v=4, i=0, k=1), call("vslice", v, v=1, i=0, k=1), call("vofsize", wv, v=4, d=a(), k=2), call("vofsize", v, v=1, d=w(sv), k=2), call("vmemcpy", v, bytes=[1, 2, 3, 4, 5, 6, 7, 8], in_=[1, 2, 3, 4, 5, 6, 7, 8]),
            call("vdup", v, v=4), call("vcmp", v, n0), dict(op="vdel", v=2), call("vhold", e0, h=1), call("vhold", e1, h=2), call("vhold", n0, h=2), call("vhold", n00, h=3), call("vhold", L(1, "/u2", 2, [(0, 0)]), h=3)] + reads(v)[:3])
    raise KeyError(name)
