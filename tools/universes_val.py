"""The small universes of operations on values (ValueMC.tla).  Addresses are
explicit: value, steps into containers, offset, type."""
from universes import num, comp, enum, opaque, vec, build, merge


def A(v, t, o=0, p=()): return dict(v=v, t=t, o=o, p=[list(x) for x in p])
def new(v, t, fill=0, **kw): return dict(op="vnew", v=v, r=1, t=t, fill=fill, **kw)
def dele(v): return dict(op="vdel", v=v)
def poke(a, bytes, mode="data"): return dict(op="vpoke", a=a, bytes=bytes, mode=mode)
def op(op_, a, b=None, **kw):
    d = dict(op=op_, a=a, **kw)
    if b is not None:
        d["b"] = b
    return d
def push(a, b): return op("vpush", a, b)
def load(a, raw, how="vec", **kw): return op("vload", a, how=how, **dict(kw, **{"in": raw}))
def string(of="/u1"): return dict(op="container", r=1, kind="/std/string", of=of)
def reads(a, text=False):
    q = [op("vdump", a, how=h) for h in ("vec", "bytes", "fd")] + [op("vdump", a, how="stream", lay=True, unmerged=True), op("vsize", a), op("vvisit", a),
         op("vtrunc", a, how="bytes"), op("vdump", a, how="bytes", limit=9)]
    if text:
        q += [op("vcsv", a, sep=" ", num=True), op("vhead", a, sep=" ", name="v")]
    return q
def cnt(n): return [n] + [0] * 7


def universe(name, thorough=False, less=0):
    d = (1 if thorough else 0) - less
    u1, u2 = num("/u1", 1, "uint"), num("/u2", 2, "uint")
    if name == "seq":           # a vector of padded compounds, two containers of it
        V, S = "/std/vector</S>", "/S"
        v1, v2, e = A(1, V), A(2, V), A(3, S)
        el = A(1, S, 0, [(0, 0)])
        return dict(depth=3 + d, prefix=[u1, u2, comp("/S", [("a", "/u1", 0), ("b", "/u2", 2)]), vec("/S"), new(1, V), new(2, V), new(3, S, 5)], ops=[
            poke(e, [1, 9, 2, 0], "all"), poke(e, [1, 7, 2, 0], "all"), poke(A(3, "/u2", 2), [3]),
            push(v1, e), push(v2, e), push(v1, el), push(v1, A(3, "/u1")), op("verase", v1, e), op("vset", v1, e, i=1), op("vset", v1, el, i=1),
            op("vdelif", v1, mod=2, rem=1), op("vclear", v1), op("vcopy", v1, v2), op("vcopy", v2, v1), op("vcopy", v1, v1), op("vcopy", e, el), op("vcopy", el, e),
            op("vzero", v2), op("vcmp", v1, v2), op("vcmp", e, el), op("vcount", v1), op("vget", v1, i=1), op("verase", v2, A(3, "/u1")), load(v2, cnt(1) + [4, 4, 4, 4])] + reads(v1))
    if name == "nest":          # vectors in vectors, strings
        W, V, Z = "/std/vector</std/vector</u1>>", "/std/vector</u1>", "/std/string"
        w1, w2, v = A(1, W), A(2, W), A(3, V)
        i0 = A(1, V, 0, [(0, 0)])
        i1 = A(1, V, 0, [(0, 1)])
        return dict(depth=3 + d, prefix=[u1, vec("/u1"), vec("/std/vector</u1>"), new(1, W), new(2, W), new(3, V), new(4, "/u1", 6)], ops=[
            push(v, A(4, "/u1")), push(w1, v), push(w2, v), push(i0, A(4, "/u1")), push(i1, A(4, "/u1")), push(w1, i0), op("vcopy", i0, i1), op("vcopy", v, i0),
            op("verase", w1, v), op("verase", w1, i1), op("verase", i1, A(4, "/u1")), op("vclear", i0), op("vclear", v), op("vset", w1, v, i=0), op("vset", w1, i0, i=1),
            op("vdelif", w1, mod=2, rem=0), op("vcopy", w2, w1), op("vcopy", w1, w2), op("vcmp", w1, w2), op("vcmp", i0, i1), op("vzero", i1), op("vzero", w1),
            load(w1, cnt(2) + cnt(1) + [5] + cnt(0)), load(i0, cnt(2) + [5, 6]), load(v, cnt(2) + [5]), dele(2), poke(A(4, "/u1"), [7])] + reads(w1))
    if name == "string":        # strings next to other things
        Z, T, V = "/std/string", "/T", "/std/vector</std/string>"
        t1, t2, z = A(1, T), A(2, T), A(3, Z)
        z1 = A(1, Z, 8)
        c = A(4, "/int8_t")
        return dict(depth=3 + d, prefix=[num("/int8_t", 1, "sint"), num("/i4", 4), string("/int8_t"), vec("/std/string"), comp("/T", [("n", "/i4", 0), ("s", Z, 8), ("v", V, 40)]),
                                         new(1, T, 3), new(2, T, 9), new(3, Z), new(4, "/int8_t", 65)], ops=[
            push(z, c), push(z1, c), push(A(1, V, 40), z), push(A(1, V, 40), z1), push(A(2, V, 40), z1), op("vcopy", z1, z), op("vcopy", z, A(1, Z, 0, [(40, 0)])), op("vclear", z), op("vclear", z1),
            op("vcopy", t2, t1), op("vcopy", t1, t2), op("vzero", t1), op("vcmp", t1, t2), op("vcmp", z, z1), op("verase", A(1, V, 40), z), op("verase", z, c), op("vset", z, c, i=0), op("vget", z, i=0),
            op("vdelif", z, mod=2, rem=1), poke(A(1, "/i4"), [1, 2, 3]), poke(t1, [0], "pads"), op("vcount", z), op("veswap", t1), op("vcswap", t1, t2), load(z, cnt(17) + [66] * 17),
            load(t1, [1, 0, 0, 0, 9, 9, 9, 9] + cnt(1) + [67] + cnt(1) + cnt(2) + [68, 69])] + reads(t1))
    if name == "flat":          # numbers, enumerations, opaque data and padding, nested
        T = "/T"
        t1, t2 = A(1, T), A(2, T)
        return dict(depth=2 + d, prefix=[num("/u1", 1, "uint"), num("/i2", 2), num("/i4", 4), num("/f8", 8, "float"), enum("/E", [["B", 2], ["A", 1], ["C", 258]]), opaque("/O", 3),
                                         comp("/S", [("a", "/u1", 0), ("b", "/i2", 2)]), build("/S[2]"), comp("/T", [("e", "/E", 0), ("s", "/S[2]", 4), ("o", "/O", 12), ("f", "/f8", 16), ("c", "/u1", 24)]),
                                         new(1, T, 3, lay=True, opq=True), new(2, T, 90, lay=True, opq=True), new(3, "/S[2]", 17), new(4, "/S", 1)], ops=[
            poke(t1, [1, 2, 0, 0], "all"), poke(A(1, "/E"), [1, 0, 0, 0]), poke(t1, [0], "pads"), poke(A(3, "/S", 4), [255, 1]), poke(t2, [0, 0, 0, 0, 0, 0, 240, 63]),
            op("vcopy", t2, t1, lay=True, opq=True), op("vcopy", t1, t2, lay=True, opq=True, unmerged=True), op("vcopy", A(3, "/S[2]"), A(1, "/S[2]", 4)), op("vcopy", A(2, "/S", 8), A(4, "/S")),
            op("vcopy", t1, t2), op("vcopy", A(4, "/S"), A(3, "/S", 4)), op("vcmp", A(3, "/S[2]"), A(1, "/S[2]", 4)), op("vcmp", t1, t2), op("vcmp", A(4, "/S"), A(3, "/S")),
            op("vzero", t1, lay=True, opq=True), op("vzero", A(3, "/S[2]")), op("vzero", A(2, "/S", 4)), op("vzero", A(1, "/E")), op("veswap", t1), op("veswap", A(1, "/S", 8)), op("veswap", A(3, "/S[2]")),
            op("vcswap", A(3, "/S[2]"), A(1, "/S[2]", 4)), op("vcswap", A(1, "/E"), A(2, "/E")), op("vcswap", A(4, "/S"), A(3, "/S", 4)), op("vcswap", t1, t2), op("vfield", t1, f="f"), op("vfield", t1, f="x"),
            op("vcast", A(1, "/f8", 16), k="float8"), op("vcast", A(1, "/f8", 16), k="sint8"), op("vcast", A(1, "/E"), k="sint4"), op("vcast", A(3, "/u1", 4), k="uint1"), op("vcast", A(3, "/u1", 4), k="sint1"),
            op("vcsv", t1, sep=",", num=True), op("vcsv", t1, sep=",", num=False), op("vhead", t1, sep=", ", name="v"), op("vcsv", A(3, "/S[2]"), sep=" ", num=True), op("vhead", A(3, "/S[2]"), sep=" ", name=""),
            op("vvisit", t1), op("vvisit", A(3, "/S[2]")), op("vshape", t1), op("vshape", t1, stop=4), op("vdump", t1, how="bytes"), op("vdump", t1, how="bytes", lay=True, opq=True), op("vdump", t1, how="ostream", lay=True, opq=True, unmerged=True),
            op("vdump", A(4, "/S"), how="file"), op("vdump", A(4, "/S"), how="stream", limit=3), op("vdump", A(4, "/S"), how="fd", full=True), op("vdump", A(4, "/S"), how="bytes", limit=4), op("vdump", A(4, "/S"), how="bytes", limit=3),
            op("vsize", A(3, "/S[2]")), op("vsize", t1, lay=True, opq=True), op("vtrunc", t1, how="vec", lay=True, opq=True), op("vtrunc", A(4, "/S"), how="stream"), op("vtrunc", A(3, "/S[2]"), how="bytes", lay=True, unmerged=True),
            load(A(4, "/S"), [1, 2, 3, 4]), load(A(4, "/S"), [1, 2, 3]), load(A(4, "/S"), [1, 3, 4], lay=True, unmerged=True), load(A(4, "/S"), [1, 2, 3, 4, 5], how="stream")])
    if name == "loads":         # everything a loader can be given
        T, V, Z = "/T", "/std/vector</S>", "/std/vector</u1>"
        t1, v2 = A(1, T), A(2, V)
        good = [9, 9] + cnt(1) + [1, 8] + cnt(2) + [4, 5] + [6]
        ins = [good, good[:-1], good[:10], good + [1], [], cnt(0), [0, 0] + cnt(0) + [0], [0, 0] + cnt(1) + [0], [0] * 10, [0] * 18, [0] * 19, [0] * 20, [0] * 26, [0] * 34]
        return dict(depth=2 + d, prefix=[u1, vec("/u1"), comp("/S", [("a", "/u1", 0), ("v", Z, 8)]), vec("/S"), comp("/T", [("x", "/u1", 0), ("y", "/u1", 1), ("s", V, 8), ("z", "/u1", 32)]),
                                         new(1, T, 3), new(2, V)], ops=
            [load(t1, i, "bytes") for i in ins] + [load(t1, ins[0], "stream"), load(t1, ins[3], "stream"), load(t1, [9, 9] + cnt(1) + [1] + cnt(1) + [5, 5], "vec", lay=True, unmerged=True),
             load(v2, cnt(2) + [1] + [0] * 7 + cnt(0) + [2] + [0] * 7 + cnt(1) + [3]), load(v2, cnt(2) + [1] + [0] * 7 + cnt(0) + [2] + [0] * 7 + cnt(1)), load(v2, [0, 0, 0, 0, 0, 0, 0, 128]), load(v2, [255] * 8),
             load(v2, [0, 0, 0, 0, 1, 0, 0, 0]), op("vcopy", A(1, V, 8), v2), op("vcopy", v2, A(1, V, 8)), push(v2, A(1, "/S", 0, [(8, 0)])), op("vclear", v2), op("vzero", t1), op("vcmp", v2, A(1, V, 8))] + reads(t1) + reads(v2))
    raise KeyError(name)


NAMES = ["seq", "nest", "string", "flat", "loads"]
