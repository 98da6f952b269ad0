"""Small universes of C++ headers: what each declaration can be."""
SRC = ["struct A {", "  type x;", "};", "struct B {", "  type y;", "};", "something T;", "enum E {", "};", ""]


def universe(name, thorough=False):
    start = [dict(k="ns", n="std", ctx=0, cx="std"), dict(k="fund", n="int"), dict(k="fund", n="double")]
    A, B, D, T, V = 4, 5, 6, 7, 8
    rec = lambda n, line, t, bases=(), big=8, **kw: dict(k="rec", n=n, cx=n, ctx=0, line=line, bases=list(bases), size=big,
                                                         fields=[dict(n="xy"[n == "B"], t=x, off=len(bases) * 100000, line=line + 1) for x in t], **dict(dict(own=True), **kw))
    a = [rec("A", 1, [t], big=8 if t == 2 else 100000) for t in (2, B, D, T, V)] + [rec("A", 1, [], big=1), rec("A", 1, [2], own=False), rec("A", 1, [2], inc=True)]
    b = [rec("B", 4, [t], big=8 if t == 3 else 1000000) for t in (3, A, D, V)]
    b += [rec("B", 4, t, [dict(t=A, off=0, **kw)], 1000000) for t, kw in (([3], {}), ([], {}), ([D], {}), ([3], dict(virt=True)), ([3], dict(acc="private")))]
    d = [dict(k="ptr", t=t) for t in (2, A, B)] + [dict(k="arr", t=t, dim=2) for t in (3, A, B)]
    ty = [dict(k="typedef", n="T", cx="T", ctx=0, t=t, own=own, line=7) for t, own in ((3, True), (A, True), (B, True), (D, True), (A, False))]
    ty += [dict(k="enum", n="E", cx="E", ctx=0, own=True, vals=[["OK", 0]], line=8)]
    v = [dict(k="vec", of=t, n="vector", ctx=1, line=5, cx="vector<%s, std::allocator<%s> >" % (s, s)) for t, s in ((2, "int"), (A, "A"), (B, "B"))]
    opq = []
    if name == "inherits":          # fewer kinds of fields, all bases
        a, d, v = a[:2] + a[3:4] + a[5:], d[1:2], v[1:2]
    elif name == "refers":          # what can refer to what
        a, b = a[:5] + a[6:7], b[:4] + b[4:5]
        if not thorough: d, ty, v = d[1:3] + d[4:5], ty[1:4], v[1:]
    elif name == "opaque":
        a, b, d, ty, v, opq = a[:3] + a[5:7], b[1:6], d[1:2] + d[4:5], ty[:4], v[1:2], ["/A"]
    elif name == "renamed":
        a, b, d, ty, v, opq = a[:3] + a[4:7], b[1:6], d[1:2] + d[4:5], ty[1:2], v[1:2], ["/T"]
    ops = [dict(slot=A + i, decl=x) for i, q in enumerate((a, b, d, ty, v)) for x in q]
    return dict(start=start, prefix=[dict(op="header", decls=start, opaques=opq)], ops=ops, opaques=opq, count=8, depth=5)


def history(h):
    """the import of the header that was picked"""
    q = h[1]["decls"] + [o["decl"] for o in h[2:]]
    n = list(range(1, len(q) + 1))
    k = sum(o["decl"].get("t", 0) + len(str(o)) for o in h[2:]) % 4
    order = [n, n[::-1], n[1::2] + n[::2], n[4:] + n[:4]][k]
    return dict(op="cximp", d=1, decls=q, opaques=h[1]["opaques"], order=order, src=SRC)
