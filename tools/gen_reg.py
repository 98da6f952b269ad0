"""Seeded generator of call histories for the registry driver.

It only keeps a rough idea of what the registries contain (enough to make most
calls meaningful); what the calls must do is decided by the specification."""
import copy, random, re

NSS = ["", "", "/N", "/N", "/N/M", "/N/M", "/P", "/N/M/Q", "/NM"]
BASES = ["A", "B", "C", "D", "E", "x_y", "m", "AB"]
KEYS = ["doc", "unit", "source_id", "k3", "do", "a \"k\"\t<&>"]
VALS = ["v1", "a b", "x<y", "", "q\"t", "a&b", "l1\nl2", "end]]>x", "tab\tx", "c\rr\r\n", "]]>\r]]"]
SRCS = ["", "f1", "f2", "f1.h", "/p/a&b.h", "\"s\"\t<1>\r\n.h"]
BADNAMES = ["", "A", "/", "/A-", "/A<", "/A[", "/A[x]", "/A]", "/N//A", "/A<B>", "/A</B", "/A[2]x", "rel/A", "/A[-1]", "/A<>x"]
OKODD = ["/T</A>", "/T</A,3>", "/T</N/A>/I", "/int short", "/A<1>", "/T</A*>", "/T</A[2]>"]


IDLODD = ["/_u/B", "/N/_w", "/T</unsigned int,-3>", "/T</N/A[2]>/I", "/N/T</_v>", "/_u/_v/Q", "/bool", "/T</std/vector</A>>", "/a b"]


class G:
    def __init__(self, rng, weights, **kw):
        self.r = rng
        self.w = weights
        self.maxnames = kw.get("maxnames", 14)
        self.safe = kw.get("safe", False)        # only well formed definitions
        self.imports = kw.get("imports", False)
        self.meta_src = kw.get("meta_src", True)
        self.regs = kw.get("regs", 2)
        self.similar = kw.get("similar", 0.15)
        self.idl = kw.get("idl", 0)              # how often things IDL cannot express are avoided
        self.psize = kw.get("psize", 0)          # how often built pointers are given a size
        self.ops = []

    def start(self):
        self.k = [dict() for _ in range(4)]   # name -> (cat, size, primary)
        self.defs = []                        # definitions given so far
        self.ns = ["/"] * 4
        self.emit(dict(op="reset"))

    def emit(self, o):
        self.ops.append(o)

    # -------------------------------------------------------------- picks
    def name(self, i):
        r = self.r
        c = r.random()
        if c < 0.04 and not self.safe:
            return r.choice(BADNAMES)
        if c < 0.10:
            return r.choice(OKODD + (IDLODD if self.idl else []))
        return r.choice(NSS) + "/" + r.choice(BASES)

    def fresh(self, i):
        for _ in range(8):
            n = self.name(i)
            if n not in self.k[i]:
                return n
        return n

    def any(self, i, rel=0.15):
        r = self.r
        k = self.k[i]
        if not k or r.random() < 0.03:
            return self.name(i)
        n = r.choice(sorted(k))
        if r.random() < rel:
            for ns in ("/", "/N/", "/N/M/"):
                if n.startswith(ns) and len(n) > len(ns) and self.ns[i].startswith(ns) and r.random() < 0.7:
                    return n[len(ns):]
        return n

    def primary(self, i):
        k = self.k[i]
        c = [n for n in sorted(k) if k[n][2] == n]
        return self.r.choice(c) if c else self.any(i)

    def size(self, i, n):
        for x in (n, "/" + n, "/N/" + n, "/N/M/" + n):
            if x in self.k[i]:
                return self.k[i][x][1]
        return 8

    def put(self, i, n, cat, size, prim=None):
        if n not in self.k[i]:
            self.k[i][n] = (cat, size, prim or n)

    # ---------------------------------------------------------------- ops
    def op_similar(self, i):
        """a definition given before (here or in another registry), under the same or another name, as it was or slightly changed"""
        r = self.r
        s = copy.deepcopy(r.choice(self.defs))
        c = s["cat"]
        if c in ("array", "pointer"):
            return None
        if r.random() < 0.45 or s["n"] in self.k[i]:
            s["n"] = self.fresh(i)
        if r.random() < 0.6:
            if c == "enum":
                v = s["vals"]
                m = r.choice(["more", "more", "less", "value"])
                if m == "more":
                    v.append([r.choice([x for x in ["S0", "S1", "Z", "a", "m_2", "q", "w"] if x not in [y[0] for y in v]]), r.choice([0, 1, 3, 9])])
                elif v:
                    j = r.randrange(len(v))
                    if m == "less":
                        v.pop(j)
                    else:
                        v[j][1] += 1
            elif c == "compound":
                m = r.choice(["pad", "pad", "name", "off", "type", "drop"])
                f = s["fields"]
                if m == "pad" or not f:
                    s["size"] = max([x["off"] + self.size(i, x["t"]) for x in f] + [s.get("size", 0)]) + r.choice([1, 4])
                elif m == "name":
                    f[r.randrange(len(f))]["n"] = "other"
                elif m == "off":
                    f[-1]["off"] += r.choice([1, 4])
                elif m == "drop":
                    f.pop()
                else:
                    f[r.randrange(len(f))]["t"] = self.any(i)
            elif c == "numeric":
                if r.random() < 0.5:
                    s["num"] = r.choice(["sint", "uint", "float"])
                else:
                    s["size"] = r.choice([1, 2, 4, 8])
            elif c == "opaque":
                s["size"] += 1
        self.put(i, s["n"], c, s.get("size", 4 if c == "enum" else max([f["off"] + self.size(i, f["t"]) for f in s.get("fields", [])] + [0])))
        return dict(op="add", r=i, spec=s, s=r.choice(SRCS))

    def op_add(self, i):
        r = self.r
        if self.defs and r.random() < self.similar:
            o = self.op_similar(i)
            if o:
                return o
        o = dict(op="add", r=i)
        c = r.choices(["numeric", "opaque", "enum", "null", "compound", "array", "pointer"],
                      [4, .5, 2, 0, 6, 1.5, 0] if r.random() < self.idl else [4, 1, 1.5, 0.6, 4, 1, 1])[0]
        n = self.fresh(i)
        if c == "numeric":
            s = dict(n=n, cat=c, num=r.choice(["sint", "uint", "float"]), size=r.choice([1, 2, 4, 8]))
            if self.idl and r.random() < (1 - self.idl) * .2:
                s["size"] = r.choice([3, 16])
            self.put(i, n, c, s["size"])
        elif c == "opaque":
            s = dict(n=n, cat=c, size=r.choice([0, 3, 4, 16]))
            self.put(i, n, c, s["size"])
        elif c == "null":
            s = dict(n=n, cat=c)
            self.put(i, n, c, 0)
        elif c == "enum":
            syms = r.choice([["S0", "S1", "Z", "a", "m_2"]] * 3 + [["S", "S0", "s0", "a", "S00"]])[:r.randint(0, 5)]
            r.shuffle(syms)
            s = dict(n=n, cat=c, vals=[[x, r.choice([0, 1, 2, 5, -3, 65536, j])] for j, x in enumerate(syms)])
            self.put(i, n, c, 4)
        elif c == "compound":
            s = dict(n=n, cat=c, fields=self.fields(i))
            end = max([f["off"] + self.size(i, f["t"]) for f in s["fields"]] + [0])
            if r.random() < 0.4:
                s["size"] = end + r.choice([0, 1, 4])
            self.put(i, n, c, max(end, s.get("size", 0)))
        elif c == "array":
            b = self.any(i)
            s = dict(cat=c, on=b, dim=r.choice([0, 1, 2, 3, 12]))
            nm = self.full(i, b)
            self.put(i, "%s[%d]" % (nm, s["dim"]), c, s["dim"] * self.size(i, b))
        else:
            b = self.any(i)
            s = dict(cat=c, on=b)
            self.put(i, self.full(i, b) + "*", c, 8)
        o["spec"] = s
        self.defs.append(s)
        if c not in ("array", "pointer") and r.random() < 0.3 or (c in ("array", "pointer") and r.random() < 0.4):
            o["p"] = r.random() < 0.6
        o["s"] = r.choice(SRCS)
        return o

    def full(self, i, b):
        if b.startswith("/"):
            e = self.k[i].get(b)
            return e[2] if e else b
        for x in ("/N/M/", "/N/", "/"):
            if x + b in self.k[i]:
                return self.k[i][x + b][2]
        return "/" + b

    def fields(self, i):
        r = self.r
        out, off = [], 0
        names = r.choice([["f0", "f1", "f2", "g", "zz"]] * 4 + [["f0", "f", "F0", "f00", "g"]])
        cnt = r.choices([0, 1, 2, 3, 4], [1, 3, 4, 3, 1])[0]
        for j in range(cnt):
            t = self.any(i)
            al = r.choice([1, 1, 4])
            off = (off + al - 1) // al * al
            if r.random() < 0.15:
                off += r.choice([1, 2, 8])
            out.append(dict(n=names[j], t=t, off=off))
            if r.random() < 0.88:
                off += self.size(i, t)
        return out

    def op_addrec(self, i):
        r = self.r
        n = self.fresh(i)
        f, off = [], 0
        for j in range(r.randint(1, 3)):
            t = "self" if r.random() < 0.6 else self.any(i)
            f.append(dict(n="r%d" % j, t=t, off=off))
            off += 8 if t == "self" else self.size(i, t)
        self.put(i, n, "compound", off)
        self.put(i, n + "*", "pointer", 8)
        return dict(op="addrec", r=i, spec=dict(n=n, cat="compound", fields=f))

    def op_container(self, i):
        r = self.r
        k = r.choices(["/std/vector", "/std/string", "/std/map"], [6, 2, 0.4])[0]
        b = self.any(i)
        if r.random() < .04 and k != "/std/string":
            return dict(op="container", r=i, kind=k, of=b, args=r.choice([0, 2, 3]))
        if k == "/std/vector":
            self.put(i, "/std/vector<%s>" % self.full(i, b), "container", 24)
        elif k == "/std/string":
            self.put(i, "/std/string", "container", 32)
            self.put(i, "/int8_t", "numeric", 1)
        return dict(op="container", r=i, kind=k, of=b)

    def op_alias(self, i):
        r = self.r
        b = self.any(i)
        n = self.fresh(i)
        if r.random() < 0.12:
            n = self.name(i) + r.choice(["*", "[2]", "[3]"])
        if self.idl and r.random() < .1:
            vs = [x for x in sorted(self.k[i]) if x.startswith("/std/vector<")]
            if vs:
                b = r.choice(vs)
                e = b[12:-1]
                n = r.choice(["/", e[:e.rfind("/") + 1], "/std/"]) + "vector_" + re.sub("[^a-zA-Z0-9]", "_", e) + "_"
        if i < 3 and r.random() < .15:     # the same alias as in the other registry
            al = [x for x in sorted(self.k[3 - i]) if self.k[3 - i][x][2] != x and self.k[3 - i][x][2] in self.k[i] and x not in self.k[i]]
            if al:
                n = r.choice(al)
                b = self.k[3 - i][n][2]
        if b in self.k[i]:
            self.put(i, n, self.k[i][b][0], self.k[i][b][1], self.k[i][b][2])
        o = dict(op="alias", r=i, base=b, name=n, s=r.choice(SRCS))
        if r.random() < 0.35:
            o["p"] = r.random() < 0.5
        return o

    def op_removeAlias(self, i):
        al = [n for n in sorted(self.k[i]) if self.k[i][n][2] != n]
        n = self.r.choice(al) if al and self.r.random() < 0.85 else self.any(i, 0)
        if n in self.k[i] and self.k[i][n][2] != n:
            del self.k[i][n]
        return dict(op="removeAlias", r=i, name=n)

    def op_clearAliases(self, i):
        for n in list(self.k[i]):
            if self.k[i][n][2] != n:
                del self.k[i][n]
        return dict(op="clearAliases", r=i)

    def op_clear(self, i):
        self.k[i] = {}
        return dict(op="clear", r=i)

    def op_remove(self, i):
        n = self.any(i)
        p = self.full(i, n)
        for x in list(self.k[i]):
            if p in x or self.k[i][x][2] == p:
                self.k[i].pop(x, None)
        return dict(op="remove", r=i, n=n)

    def op_rdeps(self, i): return dict(op="rdeps", r=i, n=self.any(i))
    def op_aliasesOf(self, i): return dict(op="aliasesOf", r=i, n=self.any(i))
    def op_find(self, i): return dict(op="find", r=i, n=self.any(i))
    def op_fullname(self, i): return dict(op="fullname", r=i, n=self.any(i, 0.5))
    def op_included(self, i): return dict(op="included", r=i, r2=self.r.choice([1, 2]), n=self.any(i))
    def op_prefix(self, i): return dict(op="prefix", r=i, n=self.r.choice(["/", "/N", "/N/", "/N/M", "/A", "/s", "", "/N/A", "/zz"]))

    def mods(self):
        r = self.r
        return "".join(r.choice(["*", "[2]", "[3]", "[10]", "[0]"]) for _ in range(r.choice([1, 1, 1, 2, 2, 3])))

    def op_build(self, i):
        r = self.r
        b = self.any(i, 0.25)
        n = b + self.mods()
        if r.random() < 0.05 and not self.safe:
            n = r.choice(["/A[2", "/A2]", "]", "*", "/", "/A[]", "/Nope*", "/A *", "/A[2]x"])
        elif b.startswith("/") and b in self.k[i]:
            e, nm, sz = self.k[i][b], self.k[i][b][2], self.k[i][b][1]
            self.put(i, nm + n[len(b):], "array" if n.endswith("]") else "pointer", 8)
        o = dict(op="build", r=i, n=n)
        if n.endswith("*") and r.random() < self.psize:
            o["sz"] = r.choice([4, 8, 16])
        return o

    def op_tb(self, i):
        r = self.r
        b = self.any(i, 0.2)
        if r.random() < .5 and b in self.k[i]:
            a = [x for x in self.k[i] if x.endswith("]")]
            b = r.choice(a) if a and r.random() < .6 else b
        steps = [[r.choice("paamm"), r.choice([0, 1, 1, 2, 2, 3])] for _ in range(r.choice([1, 1, 2, 2, 3]))]
        if steps[-1][0] == "p" and steps[-1][1] and r.random() < self.psize:
            steps.append(["s", r.choice([4, 8, 16])])
        return dict(op="tb", r=i, steps=steps, **(dict(base=b.split(" ")) if r.random() < .4 else dict(n=b)))

    def op_tbs(self, i):
        o = dict(self.op_build(i), op="tbs")
        if self.r.random() < .1:
            o = dict(op="tbs", r=i, n=self.any(i, .1))
        return o

    def op_has(self, i):
        return dict(op="has", r=i, n=self.any(i, 0.3) + (self.mods() if self.r.random() < 0.6 else ""))

    def op_setns(self, i):
        ns = self.r.choice(["/", "/N", "/N/M", "/N/", "/P", "/N/M/Q", "N", "/a-b", ""])
        if ns.startswith("/") and "-" not in ns:
            self.ns[i] = ns if ns.endswith("/") else ns + "/"
        return dict(op="setns", r=i, ns=ns)

    def op_import(self, i):
        return dict(op="import", r=i, ns=self.r.choice(["/N", "/N/M", "/P", "/P/", "/", "/Q"]), erase=self.r.random() < 0.5)

    def op_merge(self, i):
        j = self.r.choice([x for x in range(1, self.regs + 1) if x != i] + ([i] if self.r.random() < 0.1 else []))
        if self.r.random() < 0.35 and len(self.k[j]):
            # same definitions in both, so that merging has something to unify
            pass
        for n, v in self.k[j].items():
            self.put(i, n, *v)
        return dict(op="merge", r=i, **{"from": j})

    def op_minimal(self, i):
        d = self.r.choice([x for x in (1, 2, 3) if x != i])
        n = self.any(i)
        self.k[d] = {x: v for x, v in self.k[i].items() if self.full(i, n) in x or self.r.random() < 0.3}
        self.ns[d] = "/"
        return dict(op="minimal", r=i, n=n, al=self.r.random() < 0.7, d=d)

    def op_minimal2(self, i):
        a, d = self.r.choice([(2, 3), (3, 2), (1, 3), (2, 2), (1, 2)])
        if d == i:
            d = 3 if i != 3 else 2
        self.k[d] = dict(self.k[i])
        self.ns[d] = "/"
        return {"op": "minimal2", "r": i, "auto": a, "keep": self.r.random() < 0.5, "d": d}

    def op_resize(self, i):
        r = self.r
        k = self.k[i]
        c = [n for n in sorted(k) if k[n][2] == n and k[n][0] in ("numeric", "opaque", "compound", "container", "enum")]
        if not c:
            return self.op_add(i)
        sel = r.sample(c, min(len(c), r.choice([1, 1, 2, 3])))
        grow = [[n, r.choice([1, 2, 4, 8, 16])] for n in sel]
        if r.random() < 0.15:
            al = [x for x in sorted(k) if k[x][2] != x and k[x][2] not in sel and k[x][0] in ("numeric", "opaque", "compound")]
            if al:
                grow.append([r.choice(al), 8])
        if r.random() < 0.06:
            grow.append([r.choice(["/Nope", "/A/"]), 4])
        return dict(op="resize", r=i, grow=grow)

    def op_setsrc(self, i): return dict(op="setsrc", r=i, n=self.any(i), s=self.r.choice(SRCS[1:]))

    def op_meta(self, i):
        r = self.r
        o = dict(op="meta", r=i, n=self.any(i), mode=r.choices(["set", "add", "key", "clear", "clearall", "both"], [3, 6, 2, 1, 0.5, 1.5])[0],
                 k=r.choice(KEYS), v=r.choice(VALS))
        if r.random() < 0.4:
            c = [n for n in sorted(self.k[i]) if self.k[i][n][0] == "compound"]
            if c:
                o["n"] = r.choice(c)
                o["f"] = r.choice(["f0", "f0", "f1", "f2", "r0", "nope", "f"])
        return o

    def op_mergemeta(self, i): return dict(op="mergemeta", r=i, **{"from": 3 - i if i < 3 else 1})

    def op_copysrc(self, i): return dict(op="copysrc", r=i, **{"from": 3 - i if i < 3 else 1})
    def op_show(self, i): return dict(op="show", r=i, n=self.any(i), ind=self.r.choice(["", "", "  ", "# "]))

    def op_dump(self, i):
        r = self.r
        return dict(op="dump", r=i, all=r.random() < .7, src=r.random() < .4, flt=r.choice(["*", "*", "*", "", "f1", "f1", "f2", "f1.h", "nope", "f", "1"]))

    def op_stdtypes(self, i):
        self.k[i].update({"/int8_t": ("numeric", 1, "/int8_t"), "/int": ("numeric", 4, "/int32_t"), "/int32_t": ("numeric", 4, "/int32_t"), "/std/string": ("container", 32, "/std/string"),
                          "/double": ("numeric", 8, "/double"), "/unsigned char": ("numeric", 1, "/uint8_t"), "/bool": ("numeric", 1, "/bool")})
        return dict(op="stdtypes", r=i)

    def en(self, i):
        c = [n for n in sorted(self.k[i]) if self.k[i][n][0] == "enum"]
        return self.r.choice(c) if c else self.any(i)

    def op_enumget(self, i):
        o = dict(op="enumget", r=i, n=self.en(i))
        if self.r.random() < 0.5:
            o["sym"] = self.r.choice(["S0", "S1", "Z", "a", "nope", "S"])
        else:
            o["val"] = self.r.choice([0, 1, 2, 5, -3, 7])
        return o

    def op_enumadd(self, i):
        return dict(op="enumadd", r=i, n=self.en(i), sym=self.r.choice(["S0", "S1", "Z", "n1", "n2", "a"]),
                    auto=self.r.random() < 0.4, val=self.r.choice([0, 1, 2, 9, -7]))

    def op_same(self, i): return dict(op="same", r=i, r2=self.r.choice([x for x in (1, 2, 3) if x <= max(2, self.regs)]))
    def op_order(self, i): return dict(op="order", r=i)
    def op_tlbsave(self, i): return dict(op="tlbsave", r=i)

    def op_idl(self, i):
        r = self.r
        o = dict(op="idl", r=i, sel=[])
        if r.random() < .4:
            o["prefix"] = r.choice(["/orogen", "orogen", "/a/b", "/_p", "/N", "/x/"])
        if r.random() < .4:
            o["suffix"] = r.choice(["Corba", "/Corba", "c/d/", "_s", "/M/"])
        if r.random() < .6:
            o["any"] = True
        if r.random() < .25:
            o["blob"] = r.choice([1, 3, 4, 8, 16, 30])
        if r.random() < .3:
            ns = sorted(self.k[i])
            o["sel"] = r.sample(ns, min(len(ns), r.choice([1, 2, 4, 8])))
        if r.random() < .3:
            o["again"] = True
        return o

    def op_tlbtrip(self, i):
        r = self.r
        d = r.choice([x for x in (2, 3) if x != i])
        o = dict(op="tlbtrip", r=i, d=d)
        if r.random() < 0.6:
            o["perm"] = [r.randint(0, 30) for _ in range(20)]
        elif r.random() < 0.3:
            o["file"] = True
        self.k[d] = dict(self.k[i])
        self.ns[d] = "/"
        return o

    def doc(self, i):
        r = self.r
        cnt = r.choice([1, 2, 3, 4, 6, 8])
        names = [self.name(i) for _ in range(cnt)]
        nodes = []
        for n in names:
            k = r.choices(["numeric", "opaque", "null", "enum", "compound", "container", "alias", "array", "pointer", "bogus"],
                          [4, 1, 0.5, 1, 4, 2, 2, 0.5, 0.5, 0.15])[0]
            x = dict(k=k, name=n)
            ref = lambda: r.choice(names + sorted(self.k[i])) + (self.mods() if r.random() < 0.3 else "")
            if r.random() < 0.3:
                x["source_id"] = r.choice(SRCS[1:])
            if k == "numeric":
                x.update(category=r.choice(["sint", "uint", "float"]), size=str(r.choice([1, 2, 4, 8])))
            elif k == "opaque":
                x.update(size=str(r.choice([0, 4, 10])))
            elif k == "enum":
                x["vals"] = [[s, str(r.choice([0, 1, -5, 7]))] for s in ["S0", "Z", "b"][:r.randint(0, 3)]]
                if r.random() < 0.15:
                    x["size"] = r.choice(["1", "4", "8"])
            elif k == "compound":
                f, off = [], 0
                for j in range(r.randint(0, 3)):
                    f.append(dict(n="f%d" % j, t=ref(), off=str(off), m=[[r.choice(KEYS), ["v"]]] if r.random() < 0.2 else []))
                    off += r.choice([0, 1, 4, 8, 24])
                if r.random() < 0.3:
                    r.shuffle(f)
                x["fields"] = f
                x["size"] = str(off + 8)
            elif k == "container":
                kind = r.choices(["/std/vector", "/std/string", "/std/set"], [5, 1, 0.3])[0]
                of = ref()
                x.update(of=of, kind=kind, size=str(r.choice([24, 24, 0, 40])))
                if kind == "/std/vector" and r.random() < 0.8:
                    x["name"] = "/std/vector<%s>" % of
                if r.random() < 0.2:
                    del x["size"]
            elif k == "alias":
                x["source"] = ref()
            elif k == "array":
                of = ref()
                x.update(name=of + "[4]", of=of, dimension="4")
            elif k == "pointer":
                of = ref()
                x.update(name=of + "*", of=of)
            if r.random() < 0.2:
                x["meta"] = [[r.choice(KEYS), r.choice([[], ["v"], ["a", "b"]])]]
            if r.random() < 0.06:
                att = r.choice(["size", "category", "of", "kind", "source"])
                x.pop(att, None)
            if r.random() < 0.03 and "size" in x:
                x["size"] = r.choice(["x", "4a"])
            if r.random() < 0.03 and x.get("category"):
                x["category"] = "int"
            if x.get("fields") and r.random() < 0.05:
                x["fields"][0].pop(r.choice(["n", "t", "off"]))
            if r.random() < .1:
                x["cm"] = 1
            nodes.append(x)
            self.put(i, x["name"], {"bogus": "null"}.get(k, k), 8)
        if r.random() < 0.6:
            # order so that most documents can be built whatever the order
            pass
        return nodes

    def op_tlbload(self, i):
        o = dict(op="tlbload", r=i, doc=self.doc(i))
        if self.r.random() < 0.02:
            o["root"] = "other"
        return o

    def op_iofail(self, i): return dict(op="iofail", r=i, how=self.r.choice(["missing", "dir", "nodir", "full"]), fmt="tlb")

    def op_tlbraw(self, i):
        return dict(op="tlbraw", r=i, text=self.r.choice([
            "", "<typelib>", "<typelib><numeric name=\"/a\"", "not xml", "<typelib></typelib2>", "<x/>",
            "<typelib><numeric size=\"4\" category=\"sint\"/></typelib>", "<typelib><compound name=\"/c\"/></typelib>",
            "<?xml version=\"1.0\"?><typelib><foo name=\"/c\"/></typelib>",
            "<typelib><numeric name=\"/c\" size=\"4\" category=\"sint\"></typelib>"]))

    def run(self, length):
        self.start()
        names = list(self.w)
        ws = [self.w[n] for n in names]
        for _ in range(length):
            i = self.r.choices(range(1, self.regs + 1), [3, 2, 1][:self.regs])[0]
            o = self.r.choices(names, ws)[0]
            if len(self.k[i]) > self.maxnames and o in ("add", "addrec", "build", "alias", "container", "tlbload"):
                o = self.r.choice(["remove", "removeAlias", "rdeps"]) if "remove" in self.w else o
                if len(self.k[i]) > 2 * self.maxnames:
                    o = "clear"
            c = getattr(self, "op_" + o)(i)
            if c:
                self.emit(c)


BASE = dict(add=10, addrec=1, container=3, alias=4, build=5)


def histories(seed, weights, count, length, **kw):
    rng = random.Random(seed)
    g = G(rng, weights, **kw)
    for _ in range(count):
        g.run(length)
    return g.ops


if __name__ == "__main__":
    import json, sys
    w = dict(BASE, remove=2, removeAlias=1, clearAliases=.3, clear=.1, rdeps=1, setns=2, merge=2, minimal=1, minimal2=.7, has=2, meta=2,
             setsrc=1, mergemeta=.5, enumget=1, enumadd=1, same=1, order=1, tlbsave=1, tlbtrip=1, tlbload=1.5, tlbraw=.2, resize=1.5,
             find=.5, prefix=1, fullname=.3, included=.3, aliasesOf=1)
    for o in histories(int(sys.argv[1]), w, int(sys.argv[2]), int(sys.argv[3])):
        print(json.dumps(o))
