"""Seeded generator of C++ declarations, as a parser reports them, and of the
header they come from; and of histories that import them."""
import random

FUND = dict(zip(["int", "double", "char", "unsigned char", "long int", "long unsigned int", "unsigned int", "short int", "float", "bool", "signed char", "long long int",
                 "short unsigned int", "wchar_t", "long long unsigned int"], [4, 8, 1, 1, 8, 8, 4, 2, 4, 1, 1, 8, 2, 4, 8]))
ODD = ["long double", "char16_t", "__int128", "void"]
WORDS = ["position", "of the", "sensor", "in meters", "see also", "a < b", "x, y", "C++", "rate (Hz)", "TODO"]


class CX:
    def __init__(self, r, nrec=None, plain=False):
        self.r, self.N, self.src, self.names, self.plain = r, [], [], set(), plain
        self.size, self.align, self.fund = {}, {}, {}
        self.std = self.add(k="ns", n="std", ctx=0, cx="std")
        self.scopes = [0]
        two = lambda a, b: r.choice([a, a, b])
        self.spell = ["int", "double", two("char", "signed char"), "unsigned char", two("long int", "long long int"), two("long unsigned int", "long long unsigned int"),
                      "unsigned int", "short int", "float", "bool", "short unsigned int"]
        if r.random() < .5: self.spell[0] = two("int", "wchar_t")
        self.recs, self.vals = [], []      # by index; what can be used by value
        self.complete = set()
        self.pre = r.random() < .6
        if self.pre:
            self.src += r.choice([["#pragma once"], ["// a license", "// of two lines", "", "#ifndef H", "#define H"], ["#include <vector>", ""]])
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c = r.choice(self.scopes)
            n = r.choice(["N", "M", "N", "std", ""] if c else ["N", "M", "X"])
            if self.free(c, n or "!%d" % len(self.N)):
                self.scopes.append(self.add(k="ns", n=n, ctx=c, cx=n))
        for _ in range(nrec or r.choice([1, 2, 3, 4, 5, 6])):
            self.one()
        if r.random() < .4:
            self.src += r.choice([["// vim: set ts=4"], ["#endif // H"], ["", "/* end", " * of file */", ""]])
        # members of the header, in any order
        self.order = list(range(1, len(self.N) + 1))
        if r.random() < .7:
            r.shuffle(self.order)

    def add(self, **kw):
        self.N.append(kw)
        return len(self.N)

    def node(self, i): return self.N[i - 1]

    def free(self, c, n):
        if (c, n) in self.names:
            return False
        self.names.add((c, n))
        return True

    def full(self, i): return "" if i == 0 else self.full(self.node(i)["ctx"]) + "/" + self.node(i)["n"]
    def cxx(self, i): return self.node(i)["cx"] if self.node(i)["ctx"] == 0 else self.cxx(self.node(i)["ctx"]) + "::" + self.node(i)["cx"]
    def named(self, i): return i == 0 or (self.node(i)["n"] != "" and self.named(self.node(i)["ctx"]))
    def hidden(self, i): return i != 0 and (self.node(i)["n"] == "" or self.hidden(self.node(i)["ctx"]))

    def fundamental(self, n=None):
        n = n or (self.r.choice(ODD) if self.r.random() < .04 else self.r.choice(list(FUND)[:self.r.choice([2, 6, 15])]))
        if n not in self.fund:
            self.fund[n] = i = self.add(k="fund", n=n)
            self.size[i] = self.align[i] = FUND.get(n, 16)
        return self.fund[n]

    def plainfund(self):
        """an argument of a template: with a single spelling of each Typelib type, since what is instantiated with two of them is one type"""
        n = self.r.choice(self.spell)
        return self.fundamental(n)

    def string(self):
        if "str" not in self.fund:
            c = self.std if self.r.random() < .5 else self.add(k="ns", n="__cxx11", ctx=self.std, cx="__cxx11")
            s = self.fund["str"] = self.add(k="str", ctx=c, n="string")
            t = self.fund["strt"] = self.add(k="typedef", n="string", cx="string", ctx=self.std, t=s, own=False, line=7)
            for i in (s, t):
                self.size[i], self.align[i] = 32, 8
        return self.r.choice([self.fund["str"], self.fund["strt"]])

    # the way a C++ parser spells a type as a template argument
    def spelled(self, i):
        x = self.node(i)
        if x["k"] == "fund": return x["n"]
        if x["k"] == "str": return "std::basic_string<char>"
        if x["k"] == "vec": return "std::" + x["cx"]
        if x["k"] == "ptr": return self.spelled(x["t"]) + " *"
        return self.cxx(i)

    def vector(self, of):
        key = ("vec", of)
        if key not in self.fund:
            s = self.spelled(of)
            g = " " if s.endswith(">") or s.endswith("*") else ""
            self.fund[key] = i = self.add(k="vec", of=of, n="vector", ctx=self.std, cx="vector<%s, std::allocator<%s%s> >" % (s, s, g), line=self.r.randrange(1, 400))
            if self.r.random() < .3:
                self.node(i)["raw"] = self.node(i)["cx"].replace(", ", ",") if self.r.random() < .5 else self.node(i)["cx"].replace("> >", ">>")
            self.size[i], self.align[i] = 24, 8
        return self.fund[key]

    def cached(self, key, size, align, **kw):
        if key not in self.fund or self.r.random() < .1:
            self.fund[key] = i = self.add(**kw)
            self.size[i], self.align[i] = size, align
        return self.fund[key]

    def pointer(self, t): return self.cached(("p", t), 8, 8, k="ptr", t=t)

    def element(self):
        """what a vector can be of"""
        r = self.r
        x = [v for v in self.vals + self.recs if self.node(v)["k"] in ("rec", "enum") and self.named(v)]
        if x and r.random() < .6:
            return r.choice(x)
        k = r.random()
        if k < .12: return self.pointer(self.plainfund())
        if k < .3: return self.vector(self.plainfund())
        return self.plainfund()

    def use(self, mine=0, depth=0):
        """a type that can be used by value here"""
        r = self.r
        k = r.random()
        if depth > 2 or k < .34:
            return self.fundamental()
        if k < .6 and self.vals:
            return r.choice(self.vals)
        if k < .7:
            t = self.use(mine, depth + 1)
            d = r.choice([1, 2, 3, 10]) if r.random() < .92 else -1
            i = self.cached(("a", t, d), self.size[t] * max(d, 0), self.align[t], k="arr", t=t, dim=d)
            if r.random() < .2:
                self.node(i)["u"] = "u"
            return i
        if k < .8:
            t = r.choice(self.recs + [mine]) if (self.recs or mine) and r.random() < .6 else self.use(mine, depth + 1)
            return self.pointer(t or self.fundamental())
        if k < .86:
            t = self.use(mine, depth + 1)
            c, v = r.choice([("1", None), (None, "1"), ("1", "1"), ("1", None)])
            return self.cached(("c", t, c, v), self.size[t], self.align[t], k="cv", t=t, **{k: "1" for k, b in (("c", c), ("v", v)) if b})
        if k < .93:
            return self.vector(mine if mine and r.random() < .1 and self.named(mine) and "args" not in self.node(mine) else self.element())
        if k < .975:
            return self.string()
        return self.cached("other%d" % r.randrange(2), 8, 8, k="other", union=r.random() < .5, n="U%d" % r.randrange(2), ctx=0, own=False, line=3)

    # ------------------------------------------------------------ source text
    def doc(self, x, ind):
        """a comment before what comes next, if it has one"""
        r = self.r
        if r.random() < .6:
            if r.random() < .5 or not self.src:
                return
            if self.src[-1].strip() == "" or self.src[-1].lstrip()[:2] in ("//", "/*", "* "):
                self.src.append(ind + "class Forward;")
            return
        if self.src and (self.src[-1].strip() == "" or self.src[-1].lstrip()[:1] in ("/", "*")):
            self.src.append(ind + "class Forward;")
        n = r.choice([1, 1, 2, 3])
        q = [" ".join(r.choice(WORDS) for _ in range(r.choice([1, 2, 3]))) for _ in range(n)]
        if n > 2 and r.random() < .4:
            q[1] = ""
        if n > 1 and r.random() < .4:
            k = r.choice([i for i in range(n) if q[i]])
            q[k] = r.choice(["  ", " ", "    "]) + q[k]
        if r.random() < .3:
            k, v = r.choice(["unit", "role", "test"]), r.choice(["m", "m/s 2", "a:b"])
            q.insert(r.randrange(1, len(q) + 1), "@meta %s %s" % (k, v))
            x["dm"] = [[k, v]]
        if r.random() < .15:
            k, v = "role", "second"
            q.append("@meta %s %s" % (k, v))
            x["dm"] = x.get("dm", []) + [[k, v]]
        x["doc"] = "\n".join(q)
        st = r.randrange(4)
        if st == 0: out = ["// " + l if l else "//" for l in q]
        elif st == 1: out = ["/** " + q[0]] + [" * " + l if l else " *" for l in q[1:]] + [" */"]
        elif st == 2: out = ["/*"] + [" * " + l if l else " *" for l in q] + [" */"]
        else: out = ["/// " + l if l else "///" for l in q]
        self.src += [ind + l for l in out]
        if r.random() < .2:
            self.src.append("")

    def write(self, l):
        self.src.append(l)
        return len(self.src)

    # ------------------------------------------------------------ declarations
    def scope(self):
        return self.r.choice(self.scopes)

    def one(self):
        r = self.r
        c = self.scope()
        own = r.random() < .8 and (c == 0 or self.node(c).get("own", True))
        acc = None
        if c and self.node(c)["k"] == "rec":
            acc = "public" if r.random() < .8 else r.choice(["private", "protected"])
        k = r.random()
        n = r.choice(["A", "B", "C", "Data", "Pose", "A_B", "T1"])
        if k > .93 and not self.plain: n = "__" + n
        if k > .98 and not self.plain: n = ""
        if k < .18:
            return self.typedef(c, own, acc, n)
        if k < .3:
            return self.enum(c, own, acc, n)
        return self.rec(c, own, acc, n)

    def place(self, x, own, text):
        if own:
            self.doc(x, "")
            x["line"] = self.write(text)
            if x["k"] != "typedef" and self.r.random() < .2:
                x["xline"] = self.write("{")
        else:
            x["line"] = self.r.randrange(1, 300)

    def typedef(self, c, own, acc, n):
        r = self.r
        if n == "": return
        if r.random() < .1: c, n, acc = 0, r.choice(["int32_t", "uint8_t"]), None
        if not self.free(c, n): return
        t = self.fundamental(dict(int32_t="int", uint8_t="unsigned char")[n]) if n[-2:] == "_t" and c == 0 and n[0] in "iu" else self.use()
        if r.random() < .25 and self.recs and n[-2:] != "_t":
            t = r.choice(self.recs)
        x = dict(k="typedef", n=n, cx=n, ctx=c, t=t, own=own)
        if acc: x["acc"] = acc
        self.place(x, own, "typedef something %s;" % n)
        i = self.add(**x)
        self.size[i], self.align[i] = self.size.get(t, 8), self.align.get(t, 8)
        if t in self.size:
            self.vals.append(i)

    def enum(self, c, own, acc, n):
        r = self.r
        if n and not self.free(c, n): return
        x = dict(k="enum", n=n, cx=n, ctx=c, own=own)
        if acc: x["acc"] = acc
        self.place(x, own, "enum %s" % n if r.random() < .5 else "enum %s {" % n)
        v = r.choice([0, -3, 2147483646, 10])
        q = []
        for s in r.sample(["OK", "FAIL", "NONE", "A", "Z_9"], r.choice([1, 2, 3])):
            q.append([s, v])
            v = r.choice([v, v - 1, v // 2, -v // 2])
        x["vals"] = q
        if own: self.src += ["  VALUES", "};"]
        i = self.add(**x)
        self.size[i] = self.align[i] = 4
        self.vals.append(i)

    def rec(self, c, own, acc, n):
        r = self.r
        args = []
        cx = n
        if n and r.random() < .22:
            q = []
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < .3:
                    args.append(dict(i=r.choice(["0", "3", "-1", "12"])))
                    q.append(args[-1]["i"])
                else:
                    ok = [x for x in self.vals + self.recs if self.node(x)["k"] in ("rec", "enum") and self.named(x) and not any("args" in self.node(y) for y in [x] + self.chain(x))]
                    t = r.choice(ok) if ok and r.random() < .6 else self.plainfund()
                    args.append(dict(t=t))
                    q.append(self.spelled(t))
            cx = "%s<%s>" % (n, ", ".join(q))
        if n and not self.free(c, cx): return
        x = dict(k="rec", n=n, cx=cx, ctx=c, own=own, fields=[], bases=[], size=0)
        if args:
            x["args"] = args
            if r.random() < .3: x["raw"] = cx.replace(", ", ",")
        if acc: x["acc"] = acc
        if r.random() < .3: x["class"] = True
        if r.random() < .2: x["before"] = True
        if not self.plain:
            k = r.random()
            if k < .05: x["inc"] = True
            elif k < .11: x["virt"] = True
        self.place(x, own, "struct %s" % n if r.random() < .5 else "struct %s {" % n)
        i = self.add(**x)
        x = self.node(i)
        off = al = 0
        used = set()
        ok = [b for b in self.recs if b in self.complete]
        for b in r.sample(ok, min(len(ok), r.choice([0, 0, 0, 0, 1, 1, 2]))):
            nm = self.fieldnames(b)
            if nm & used: continue
            used |= nm
            y = dict(t=b)
            a = self.align[b]
            off = -(-off // a) * a
            if off or r.random() < .5: y["off"] = off
            if not self.plain:
                k = r.random()
                if k < .08: y["acc"] = r.choice(["private", "protected"])
                elif k < .14: y["virt"] = True
            x["bases"].append(y)
            off, al = off + self.size[b], max(al, a)
        if not x.get("inc"):
            for f in r.sample(["x", "y", "data", "next", "_m", "A", "x1"], r.choice([0, 1, 1, 2, 2, 3, 4])):
                if f in used: continue
                used.add(f)
                t = self.use(i)
                a = self.align[t]
                off = -(-off // a) * a
                y = dict(n=f, t=t, off=off)
                if own and x["fields"] and r.random() < .1:
                    for key in ("line", "doc", "dm"):
                        if key in x["fields"][-1]: y[key] = x["fields"][-1][key]
                elif own:
                    self.doc(y, "  ")
                    y["line"] = self.write("  type %s;%s" % (f, r.choice(["", "", " // trailing"])))
                else:
                    y["line"] = x["line"] + 1
                if not self.plain and r.random() < .04: y["acc"] = r.choice(["private", "protected"])
                x["fields"].append(y)
                off, al = off + self.size[t], max(al, a)
        al = al or 1
        x["size"] = -(-max(off, 1) // al) * al
        self.size[i], self.align[i] = x["size"], al
        if own: self.write("};")
        self.recs.append(i)
        if not x.get("inc"):
            self.complete.add(i)
            self.vals.append(i)
        if n and r.random() < .3:
            self.scopes.append(i)

    def fieldnames(self, b):
        x = self.node(b)
        return {f["n"] for f in x["fields"]} | {n for y in x["bases"] for n in self.fieldnames(y["t"])}

    def op(self, d=1):
        r = self.r
        opq = []
        if r.random() < .3:
            tds, used = set(), {a["t"] for x in self.N for a in x.get("args", ()) if "t" in a}
            for i in r.sample(range(1, len(self.N) + 1), len(self.N)):
                x = self.node(i)
                if len(opq) == 2: break
                if x["k"] not in ("rec", "enum", "typedef") or not self.named(i) or not x.get("own") or "args" in x or x.get("acc", "public") != "public" or x["n"][-2:] == "_t": continue
                if any("args" in self.node(j) for j in self.chain(i)): continue
                if x["k"] == "typedef":
                    t = self.node(x["t"])
                    if t["k"] != "rec" or not self.named(x["t"]) or "args" in t or x["t"] in tds or x["t"] in used or self.full(x["t"]) in opq or any("args" in self.node(j) for j in self.chain(x["t"])): continue
                    tds.add(x["t"])
                elif i in tds: continue
                opq.append(self.full(i))
            if r.random() < .3: opq.append("/Unknown")
        return dict(op="cximp", d=d, decls=self.N, opaques=opq, order=self.order, src=self.src, **(dict(dir=r.choice(["a=b", "c:d", "e & f", "g'h", "sp ace"])) if r.random() < .15 else {}))

    def chain(self, i):
        q = []
        while self.node(i)["ctx"]:
            i = self.node(i)["ctx"]
            q.append(i)
        return q


def op(r, d=1, **kw):
    return CX(r, **kw).op(d)


def follow(r):
    """what can be done with the registries that have been imported"""
    i, j, d = r.choice([(1, 2, 3), (2, 3, 1), (3, 1, 2)])
    k = r.random()
    if k < .35: return dict(op="tlbtrip", r=i, d=d, how=r.choice(["xml", "export", "file"]))
    if k < .6: return {"op": "merge", "r": i, "from": j}
    if k < .8: return dict(op="same", r=i, r2=j)
    return dict(op="minimal", r=i, n="/" + r.choice(["A", "Data", "N/B", "T1"]), al=r.random() < .7, d=d)


def histories(seed, count):
    r = random.Random(seed)
    out = []
    for _ in range(count):
        h = [dict(op="reset")]
        plain, again = r.random() < .3, r.random() < .4
        for _ in range(3):
            h.append(op(r, r.choice([1, 2, 3]), plain=plain, nrec=r.choice([None, None, 10])))
            if again:
                h += [follow(r) for _ in range(r.choice([0, 1, 2]))]
        out.append(h)
    return out
