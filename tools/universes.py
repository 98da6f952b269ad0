"""The small universes that are explored exhaustively (RegistryMC.tla)."""


def num(n, size=4, num="sint", r=1, **kw):
    return dict(op="add", r=r, spec=dict(n=n, cat="numeric", num=num, size=size), s=kw.pop("s", ""), **kw)


def comp(n, fields, r=1, **kw):
    out = []
    for f in fields:
        out.append(dict(n=f[0], t=f[1], off=f[2]))
    return dict(op="add", r=r, spec=dict(n=n, cat="compound", fields=out), s=kw.pop("s", ""), **kw)


def enum(n, vals, r=1):
    return dict(op="add", r=r, spec=dict(n=n, cat="enum", vals=vals), s="")


def opaque(n, size, r=1):
    return dict(op="add", r=r, spec=dict(n=n, cat="opaque", size=size), s="")


def alias(base, name, r=1, **kw): return dict(op="alias", r=r, base=base, name=name, s=kw.pop("s", ""), **kw)
def build(n, r=1): return dict(op="build", r=r, n=n)
def remove(n, r=1): return dict(op="remove", r=r, n=n)
def setns(ns, r=1): return dict(op="setns", r=r, ns=ns)
def vec(of, r=1): return dict(op="container", r=r, kind="/std/vector", of=of)
def merge(r, f): return {"op": "merge", "r": r, "from": f}


def universe(name, thorough=False, less=0):
    d = (1 if thorough else 0) - less
    if name == "names":
        return dict(depth=4 + d, prefix=[], ops=[
            num("/A"), num("/N/A", 8), num("/N/M/A", 2), num("/N/B", 1),
            alias("/A", "/N/C"), alias("/N/A", "/A"), alias("A", "/N/M/C"), alias("/N/C", "/C"),
            dict(op="removeAlias", r=1, name="/N/C"), dict(op="removeAlias", r=1, name="/A"),
            remove("A"), remove("/N/A"), setns("/"), setns("/N"), setns("/N/M"),
            dict(op="clearAliases", r=1), dict(op="clear", r=1)])
    if name == "imports":
        return dict(depth=4 + d, prefix=[num("/N/A"), num("/P/A", 8), num("/P/B", 2)], ops=[
            num("/A", 1), num("/N/B"), alias("/P/B", "/N/D"), remove("A"), remove("/P/A"),
            setns("/"), setns("/N"),
            dict(op="import", r=1, ns="/P", erase=False), dict(op="import", r=1, ns="/N", erase=True),
            dict(op="import", r=1, ns="/P/", erase=True)])
    if name == "derived":
        return dict(depth=4 + d, prefix=[num("/A")], ops=[
            comp("/C", [("f", "/A", 0), ("g", "/A*", 8)]), comp("/C", [("f", "/A[2]", 0)]),
            build("/A*"), build("/A[2]"), build("/A*[2]"), build("/A[2]*"), build("/B[2]"), build("/C*"),
            vec("/A"), vec("/A[2]"), vec("/C"), alias("/A", "/B"), alias("/A[2]", "/E"), alias("/C", "/B"),
            dict(op="addrec", r=1, spec=dict(n="/C", cat="compound", fields=[dict(n="r", t="self", off=0)])),
            dict(op="removeAlias", r=1, name="/B"), dict(op="clearAliases", r=1),
            remove("/A"), remove("/A[2]"), remove("/C"),
            dict(op="resize", r=1, sizes=[["/A", 8]]), dict(op="tb", r=1, n="/A[2]", steps=[["m", 3], ["p", 2]]), dict(op="tb", r=1, base=["B"], steps=[["a", 2], ["m", 2]]),
            dict(op="tbs", r=1, n="B[2]")])
    if name == "idl":
        def idl(**kw): return dict(dict(op="idl", r=1, sel=[]), **kw)
        return dict(depth=4 + d, prefix=[num("/N/A"), comp("/N/S", [("a", "/N/A", 0)])], ops=[
            enum("/N/M/E", [["Z", 1], ["_a", 2]]), comp("/N/T</N/S>", [("_x", "/N/M/E", 0), ("y", "/N/S[2]", 4)]), comp("/N/T</N/S>", [("x", "/std/vector</N/S>", 0)]),
            build("/N/S[2]"), build("/N/S*"), vec("/N/S"), vec("/N/A"), vec("/std/vector</N/S>"), vec("/N/S[2]"), opaque("/O", 16),
            alias("/N/S", "/P/B"), alias("/std/vector</N/S>", "/N/V"), alias("/O", "/N/B"), alias("/N/S[2]", "/B"), alias("/N/A", "/N/a b"),
            alias("/std/vector</N/S>", "/N/vector__N_S_"), alias("/std/vector</N/A>", "/N/vector__N_A_"),
            idl(), idl(prefix="orogen", suffix="Corba", any=True), idl(blob=7, any=True), idl(sel=["/N/S", "/std/vector</N/S>", "/O"], again=True, suffix="/c"),
            idl(again=True, any=True)])
    if name == "merge":
        return dict(depth=4 + d, prefix=[num("/A", r=1), num("/A", r=2), num("/B", 8, r=2)], ops=[
            num("/B", 8, r=1), num("/B", 4, r=1), num("/N/A", r=2),
            comp("/C", [("f", "/A", 0)], r=1), comp("/C", [("f", "/A", 0)], r=2), comp("/C", [("f", "/B", 0)], r=2),
            alias("/A", "/X", r=1), dict(alias("/A", "/X", r=1), p=False, s="f2"), dict(alias("/A", "/X", r=2), s="f1"), alias("/B", "/X", r=2), alias("/A", "/C", r=2),
            build("/A[2]", r=1), build("/X[2]", r=2), vec("/C", r=2), vec("/A", r=1),
            dict(op="meta", r=2, n="/A", mode="add", k="doc", v="v1"), dict(op="setsrc", r=2, n="/A", s="f1"),
            merge(1, 2), merge(2, 1),
            dict(op="minimal2", r=2, auto=1, keep=True, d=3), dict(op="minimal2", r=2, auto=1, keep=False, d=3),
            dict(op="same", r=1, r2=2)])
    if name == "clash":
        # definitions that are castable without being the same
        return dict(depth=4 + d, prefix=[num("/A", r=1), num("/A", r=2)], ops=[
            enum("/E", [["a", 0]], r=1), enum("/F", [["a", 0], ["b", 1]], r=2), enum("/E", [["a", 0], ["b", 1]], r=2),
            comp("/C", [("f", "/A", 0)], r=1), dict(comp("/D", [("f", "/A", 0)], r=2), spec=dict(n="/D", cat="compound", fields=[dict(n="f", t="/A", off=0)], size=8)),
            comp("/D", [("f", "/A", 0)], r=2),
            alias("/E", "/X", r=1), alias("/F", "/X", r=2), alias("/C", "/X", r=1), alias("/D", "/X", r=2), alias("/F", "/E", r=2), alias("/D", "/C", r=2),
            dict(op="addrec", r=1, spec=dict(n="/R", cat="compound", fields=[dict(n="r", t="self", off=0)])),
            dict(op="addrec", r=2, spec=dict(n="/R", cat="compound", fields=[dict(n="r", t="self", off=0), dict(n="e", t="/A", off=8)])),
            merge(1, 2), merge(2, 1)])
    if name == "minimal":
        return dict(depth=4 + d, prefix=[num("/A"), comp("/C", [("f", "/A", 0)])], ops=[
            num("/B", 8), comp("/N/D", [("c", "/C", 0), ("d", "/A*", 8)]), vec("/C"), vec("/A"), build("/C[2]"), build("/A*"),
            alias("/C", "/N/X"), alias("/A", "/Y"), alias("/A*", "/Z"), dict(op="setsrc", r=1, n="/C", s="f1"),
            dict(op="meta", r=1, n="/C", f="f", mode="set", k="doc", v="v"),
            dict(op="minimal", r=1, n="/C", al=True, d=2), dict(op="minimal", r=1, n="/C", al=False, d=2),
            dict(op="minimal", r=1, n="/N/X", al=True, d=2), dict(op="minimal", r=1, n="/N/D", al=True, d=2),
            dict(op="minimal2", r=1, auto=2, keep=False, d=3), remove("/A*"), remove("/C"),
            dict(op="rdeps", r=1, n="/A")])
    if name == "compare":
        fs = [("f", "/A", 0)]
        return dict(depth=4 + d, prefix=[num("/A", r=1), num("/A", r=2), num("/B", 8, r=1)], ops=[
            comp("/C", fs, r=1), comp("/C", fs + [("g", "/A", 4)], r=2), comp("/C", [("f", "/A", 4)], r=2),
            comp("/D", fs, r=1), comp("/D", [("f", "/A*", 0)], r=2), build("/A*", r=1), build("/A*", r=2),
            dict(op="addrec", r=1, spec=dict(n="/R", cat="compound", fields=[dict(n="r", t="self", off=0)])),
            dict(op="addrec", r=2, spec=dict(n="/R", cat="compound", fields=[dict(n="r", t="self", off=0)])),
            dict(op="addrec", r=2, spec=dict(n="/R", cat="compound", fields=[dict(n="q", t="self", off=0)])),
            enum("/E", [["a", 0]], r=1), enum("/E", [["a", 0], ["b", 1]], r=2), opaque("/O", 4, r=1), opaque("/O", 8, r=2),
            vec("/C", r=1), vec("/C", r=2), build("/C[2]", r=1), build("/C[2]", r=2),
            alias("/A", "/X", r=1), alias("/A", "/X", r=2),
            dict(op="same", r=1, r2=2), dict(op="same", r=2, r2=1), dict(op="same", r=1, r2=1)])
    if name == "tlb":
        return dict(depth=3 + d, prefix=[num("/A"), comp("/C", [("f", "/A", 0)])], ops=[
            num("/N/B", 8), enum("/E", [["a", 0], ["b", -3]]), opaque("/O", 16), comp("/N/D", [("c", "/C", 0), ("v", "/std/vector</C>", 8)]),
            vec("/C"), vec("/A[2]"), build("/A[2]"), build("/C*"), build("/A*[3]"), alias("/C", "/N/X"), alias("/A", "/A/A"), alias("/A[2]", "/Y"),
            alias("/A", "/Z[2]"), dict(op="addrec", r=1, spec=dict(n="/R", cat="compound", fields=[dict(n="r", t="self", off=0)])),
            dict(op="setsrc", r=1, n="/C", s="f1"), dict(op="meta", r=1, n="/C", mode="add", k="doc", v="a<&]]>"),
            dict(op="meta", r=1, n="/C", f="f", mode="add", k="doc", v="x"),
            dict(op="tlbtrip", r=1, d=2), dict(op="tlbsave", r=1), dict(op="order", r=1), remove("/C")])
    if name == "listing":
        def dump(all, src=False, flt="*"): return dict(op="dump", r=1, all=all, src=src, flt=flt)
        return dict(depth=3 + d, prefix=[num("/A"), comp("/N/C", [("f", "/A", 0)], s="f1")], ops=[
            enum("/E", [["b", 0], ["a", -3]]), opaque("/O", 16), comp("/D", [("c", "/N/C", 0), ("v", "/A[2]", 8), ("p", "/N/C*", 16), ("w", "/std/vector</A>", 24)]),
            dict(op="add", r=1, spec=dict(n="/Z", cat="null"), s="f1x"), build("/A[2]"), build("/N/C[2][3]"), build("/N/C*"), vec("/A"), alias("/N/C", "/B", s="f1"), alias("/A[2]", "/Y"),
            alias("/A", "/Q", p=False), dict(op="setsrc", r=1, n="/A", s="f1"), remove("/A"),
            dump(True), dump(False), dump(True, True, "f1"), dump(False, True, ""), dump(True, False, ""),
            dict(op="show", r=1, n="/D", ind=""), dict(op="show", r=1, n="/N/C[2][3]", ind="  ")])
    raise KeyError(name)


NAMES = ["names", "imports", "derived", "merge", "clash", "minimal", "compare", "tlb"]
if __name__ == "__main__":
    import sys, json
    json.dump(universe(sys.argv[1], len(sys.argv) > 2), sys.stdout)
