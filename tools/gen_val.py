"""Seeded generator of histories of operations on values.

Each history first defines types (arbitrary nestings of numbers, enumerations,
padded compounds, arrays, vectors and strings, sometimes with opaques and
pointers), then works with values of them.  Where the operands are is resolved
by the driver, which knows what the containers hold at that time; what the
operations must do is decided by the specification."""
import random

HOWS = ["vec", "bytes", "ostream", "fd", "file", "stream"]


class G:
    def __init__(self, rng, weights, **kw):
        self.r = rng
        self.w = weights
        self.kw = kw

    # ------------------------------------------------------------- types
    def types(self):
        r, kw = self.r, self.kw
        self.ops = [dict(op="reset")]
        self.conts, self.uses = {}, {}      # container -> element, composed -> parts
        self.t = {}              # name -> (size, alignment, tags)
        add = lambda spec: self.ops.append(dict(op="add", r=1, spec=spec))
        nums = [("/i1", "sint", 1), ("/u1", "uint", 1), ("/i2", "sint", 2), ("/u2", "uint", 2), ("/i4", "sint", 4), ("/u4", "uint", 4),
                ("/i8", "sint", 8), ("/u8", "uint", 8), ("/f4", "float", 4), ("/f8", "float", 8)]
        r.shuffle(nums)
        for n, c, s in nums[:r.randint(3, 6)]:
            add(dict(n=n, cat="numeric", num=c, size=s))
            self.t[n] = (s, s, "n")
        if r.random() < kw.get("odd", 0.1):
            s = r.choice([3, 5, 6, 16])
            add(dict(n="/odd", cat="numeric", num=r.choice(["sint", "uint", "float"]), size=s))
            self.t["/odd"] = (s, 1, "nx")
        if r.random() < 0.6:
            syms = ["B", "A", "zz", "b", "C"][:r.randint(0, 5)]
            add(dict(n="/E", cat="enum", vals=[[x, r.choice([0, 1, 2, 5, -3, 65536, 258, j, 305419896])] for j, x in enumerate(syms)]))
            self.t["/E"] = (4, 4, "e")
        if r.random() < kw.get("opaque", 0.25):
            s = r.choice([1, 3, 4, 8])
            add(dict(n="/O", cat="opaque", size=s))
            self.t["/O"] = (s, 1, "o")
        if r.random() < kw.get("pointer", 0.15):
            b = r.choice(sorted(self.t))
            add(dict(cat="pointer", on=b))
            self.t[b + "*"] = (8, 8, "p")
        if r.random() < kw.get("string", 0.6):
            if r.random() < 0.5:
                add(dict(n="/int8_t", cat="numeric", num="sint", size=1))
            self.t["/int8_t"] = (1, 1, "n")         # always the elements of strings
            b = r.choice([n for n in self.t if self.t[n][0] == 1 and self.t[n][2] == "n" and (n != "/int8_t" or self.ops[-1].get("spec", {}).get("n") == n)] or [""])
            if not b:
                add(dict(n="/i1", cat="numeric", num="sint", size=1))
                self.t["/i1"] = (1, 1, "n")
                b = "/i1"
            self.ops.append(dict(op="container", r=1, kind="/std/string", of=b))
            self.t["/std/string"] = (32, 8, "c")
            self.conts["/std/string"] = "/int8_t"
        for k in range(r.randint(3, kw.get("ntypes", 9))):
            c = r.choices(["compound", "array", "vector"], kw.get("kinds", [5, 3, 4]))[0]
            if c == "compound":
                n = "/S%d" % k
                fs, off, al, tags = [], 0, 1, ""
                for j in range(r.choices([0, 1, 2, 3, 4, 5], [0.5, 3, 5, 4, 2, 1])[0]):
                    t = self.pick()
                    s, a, g = self.t[t]
                    if off + s > 150:
                        continue
                    if r.random() < 0.75:
                        off = (off + a - 1) // a * a
                    elif r.random() < 0.4:
                        off += r.choice([1, 2, 3])
                    fs.append(dict(n="f%d" % j, t=t, off=off))
                    off += s
                    al = max(al, a)
                    tags += g
                spec = dict(n=n, cat="compound", fields=fs)
                size = off
                c = r.random()
                if c < 0.6:
                    size = (off + al - 1) // al * al
                elif c < 0.75:
                    size = off + r.choice([1, 2, 5])
                if size != off and size > 0:
                    spec["size"] = size
                add(spec)
                self.t[n] = (size, al, tags)
                self.uses[n] = [f["t"] for f in fs]
            elif c == "array":
                t = self.pick()
                cs = [x for x in sorted(self.t) if x.startswith("/S") and "[" not in x and self.t[x][0] <= 40]
                if cs and r.random() < .4:
                    t = r.choice(cs)
                d = r.choice([0, 1, 2, 2, 3, 3, 5, 20])
                arrs = [x for x in sorted(self.t) if x.endswith("]")]
                if arrs and r.random() < .12:       # nested, and without elements
                    t, d = r.choice(arrs + [x for x in sorted(self.uses) if any(y in arrs for y in self.uses[x])]), 0
                s, a, g = self.t[t]
                if s * d > 150:
                    d = 2
                n = "%s[%d]" % (t, d)
                if n in self.t or s * d > 300:
                    continue
                add(dict(cat="array", on=t, dim=d))
                self.t[n] = (s * d, a, g if d else "")
                self.uses[n] = [t]
            else:
                t = self.pick()
                n = "/std/vector<%s>" % t
                if n in self.t or self.t[t][0] == 0 and r.random() < 0.9:
                    continue
                self.ops.append(dict(op="container", r=1, kind="/std/vector", of=t))
                self.conts[n] = t
                self.t[n] = (24, 8, "c" + ("Z" if self.t[t][0] == 0 or "o" in self.t[t][2] or "p" in self.t[t][2] else ""))
        for b in r.sample(sorted(self.t), min(len(self.t), 3)):      # only what they point to has values
            if r.random() < kw.get("lateptr", 0) and b + "*" not in self.t:
                add(dict(cat="pointer", on=b))
        if r.random() < kw.get("resize", 0.12):
            b = r.choice([n for n in sorted(self.t) if self.t[n][2][:1] in ("n", "o") and "[" not in n] or ["/none"])
            self.ops.append(dict(op="resize", r=1, grow=[[b, r.choice([1, 2, 4, 8])]]))
        if r.random() < kw.get("second", 0.25):
            self.ops.append(dict(op="merge", r=2, **{"from": 1}))
            self.two = True
        else:
            self.two = False

    def pick(self):
        ns = sorted(self.t)
        return self.r.choice(ns[-6:]) if self.r.random() < 0.3 else self.r.choice(ns)

    # --------------------------------------------------------------- ops
    def addr(self, want="any", v=0):
        r = self.r
        return dict(v=v or (0 if want in ("container", "vector", "elem", "plain", "compound") or r.random() < 0.83 else 1), want=want, n=r.randrange(1000))

    def lay(self, o, p=0.3):
        r = self.r
        if r.random() < p:
            o["lay"] = True
            o["rawp"] = r.random() < 0.3
            o["unmerged"] = r.random() < 0.4
        elif r.random() < 0.2:
            o["rawp"] = True
        if self.flags[0] or self.flags[1]:
            if r.random() < 0.8:
                o.update(lay=True, ptr=self.flags[0], opq=self.flags[1])
        return o

    def bytes(self):
        r = self.r
        c = r.random()
        if c < 0.25:
            return [r.randrange(256) for _ in range(r.choice([1, 3, 8, 17]))]
        if c < 0.40:
            return r.choice([[0], [255], [128], [1], [1, 0, 0, 0], [127, 255], [2, 0, 0, 0, 0, 0, 0, 0]])
        if c < 0.55:
            return r.choice([[0, 0, 128, 63], [0, 0, 192, 63], [0, 0, 0, 0, 0, 0, 240, 63], [0, 0, 0, 0, 0, 0, 248, 191]])
        if c < 0.75:
            return [r.randrange(3)]
        return [r.randrange(1, 250), r.randrange(4)]

    def having(self, c):
        """A type that has a c in it."""
        for _ in range(3):
            up = [n for n in sorted(self.uses) if c in self.uses[n]] + [n for n in sorted(self.conts) if self.conts[n] == c]
            if not up or self.r.random() < 0.3:
                break
            c = self.r.choice(up)
        return c

    def parts(self, t, seen=None):
        seen = set() if seen is None else seen
        if t not in seen:
            seen.add(t)
            for u in self.uses.get(t, []) + ([self.conts[t]] if t in self.conts else []):
                self.parts(u, seen)
        return seen

    def plan(self):
        """Types of the values: something with a container in it, mostly twice, and an element of it."""
        r = self.r
        cs = [n for n in sorted(self.conts) if "Z" not in self.t[n][2]]
        big = [n for n in sorted(self.t) if n in self.uses] or sorted(self.t)
        if cs and r.random() < self.kw.get("pcont", 0.75):
            c = r.choice(cs)
            a = self.having(c)
            els = sorted({self.conts[x] for x in self.parts(a) if x in self.conts})
            return [a, a if r.random() < 0.6 else self.having(c), self.conts[c], r.choice(els) if els and r.random() < .7 else self.pick()]
        a = r.choice(big)
        arrs = [n for n in big if "[" in n and "/S" in n]
        if arrs and r.random() < .5:
            a = r.choice(arrs)
        return [a, a if r.random() < 0.7 else r.choice(big), self.pick(), self.pick()]

    def wanted(self, v):
        """An element type for the containers of the other values, if there is none."""
        have, need = set(), set()
        for i in (1, 2, 3, 4):
            if i != v and self.slott[i]:
                ps = self.parts(self.slott[i])
                need |= {self.conts[x] for x in ps if x in self.conts}
                have.add(self.slott[i])
                have |= set(self.uses.get(self.slott[i], []))
        if not need and self.conts:
            return self.having(self.r.choice(sorted(self.conts))) if self.r.random() < .8 else None
        c = sorted(need - have)
        return self.r.choice(c) if c and self.r.random() < .8 else None

    def vnew(self, v, t=None):
        r = self.r
        t = t or self.pick()
        g = self.t[t][2]
        self.flags = ("p" in g, "o" in g) if r.random() < 0.9 else (r.random() < 0.5, r.random() < 0.5)
        o = self.lay(dict(op="vnew", v=v, r=2 if self.two and r.random() < 0.3 else 1, t=t, fill=r.randrange(256)), 0.25)
        self.slotflags[v] = self.flags
        self.slott[v] = t
        return o

    def step(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        self.flags = r.choice(self.slotflags[1:])
        if k == "new":
            v = r.randint(1, 4)
            d = dict(op="vdel", v=v, rawp=r.random() < 0.3, lay=r.random() < 0.3, unmerged=r.random() < 0.3)
            return [d, self.vnew(v, self.wanted(v) or (r.choice(self.plan()) if r.random() < 0.7 else None))]
        if k == "poke":
            return [dict(op="vpoke", a=self.addr(r.choice(["any", "leaf", "root"])), bytes=self.bytes(), mode=r.choice(["data", "data", "all", "pads"]))]
        if k == "zero":
            return [self.lay(dict(op="vzero", a=self.addr()))]
        if k == "copy":
            return [self.lay(dict(op="vcopy", b=self.addr(), a=self.addr(r.choice(["like", "like", "like", "like", "like", "same", "any"]))))]
        if k == "cmp":
            return [dict(op="vcmp", b=self.addr(), a=self.addr(r.choice(["like", "like", "cast", "same", "any"])), rawp=r.random() < 0.3)]
        if k == "twin":      # a second value of the same type, made equal, then nearly equal
            if r.random() < 0.6:     # equal but for what is not compared, or for a bit of it
                b, a = self.addr(r.choice(["any", "any", "root", "compound"])), self.addr(r.choice(["like", "like", "cast"]))
                return [dict(op="vcopy", b=b, a=a), dict(op="vpoke", a=b, bytes=self.bytes(), mode="pads"), dict(op="vcmp", b=b, a=a), dict(op="vcmp", b=b, a=a, rawp=True),
                        dict(op="vpoke", a=self.addr("leaf"), bytes=self.bytes(), mode="all"), dict(op="vcmp", b=b, a=a)]
            return [dict(op="vcopy", b=self.addr(), a=self.addr("like")), dict(op="vcmp", b=self.addr("root"), a=self.addr("like")),
                    dict(op="vpoke", a=self.addr("leaf"), bytes=self.bytes(), mode="all"), dict(op="vcmp", b=self.addr("root"), a=self.addr("like"))]
        if k == "push":
            a = self.addr(r.choice(["container", "vector"]))
            w = r.choice(["elem"] * 9 + ["any"])
            return [dict(op="vpush", a=a, b=self.addr(w)) for _ in range(r.choice([1, 1, 2, 4]))]
        if k == "fill":      # elements to put in containers
            return [dict(op="vpoke", a=self.addr("leaf"), bytes=self.bytes(), mode="data"), dict(op="vpush", a=self.addr("container"), b=self.addr("elem"))] * r.randint(1, 3)
        if k == "erase":
            return [dict(op="verase", a=self.addr("container"), b=self.addr("elem" if r.random() < 0.9 else "any"))]
        if k == "set":
            return [dict(op="vset", a=self.addr("container"), b=self.addr("elem" if r.random() < 0.9 else "any"), i=r.randrange(50))]
        if k == "delif":
            m = r.choice([2, 2, 3])
            return [dict(op="vdelif", a=self.addr("container"), mod=m, rem=r.randrange(m))]
        if k == "clear":
            return [dict(op="vclear", a=self.addr("container"))]
        if k == "count":
            return [dict(op=r.choice(["vcount", "vcount", "vkind", "vget"]), a=self.addr("container"), i=r.randrange(50))]
        if k == "visit":
            return [dict(op="vvisit", a=self.addr(r.choice(["root", "any"])))]
        if k == "dump":
            o = self.lay(dict(op="vdump", a=self.addr(r.choice(["root", "any"])), how=r.choice(HOWS)))
            c = r.random()
            if c < 0.25 and o["how"] in ("bytes", "fd", "file", "stream"):
                o["limit"] = r.choice([0, 1, 3, 7, 8, 9, 12, 16, 20, 24, 31, 32, 40, 64])
            elif c < 0.35 and o["how"] in ("fd", "file"):
                o["full"] = True
            elif o["how"] == "vec" and c < 0.4:
                o["before"] = r.randint(1, 5)
            return [o]
        if k == "size":
            return [self.lay(dict(op="vsize", a=self.addr(r.choice(["root", "any"]))))]
        if k == "load":
            # the dump of a value loaded back in one of the same type
            a = self.addr(r.choice(["root", "any"]))
            d = self.lay(dict(op="vdump", a=a, how=r.choice(HOWS)))
            o = dict(op="vload", a=dict(a, n=a["n"] if r.random() < 0.6 else r.randrange(1000)), n=self.ndump, how=r.choice(["vec", "bytes", "stream"]))
            for f in ("lay", "ptr", "opq", "unmerged"):
                if f in d:
                    o[f] = d[f]
            o["n"] = -1
            c = r.random()
            if c < 0.15:
                o["cut"] = r.randrange(100)
            elif c < 0.25:
                o["ext"] = r.randint(1, 9)
            elif c < 0.35:
                o["pad"] = True
            elif c < 0.5:
                o["flip"] = r.randrange(200)
            mid = [dict(op="vpoke", a=self.addr("leaf"), bytes=self.bytes(), mode="all")] if r.random() < 0.5 else []
            return [d] + mid + [o]
        if k == "loadraw":
            n = r.choice([0, 1, 4, 8, 9, 12, 16, 24, 33, 60])
            c = r.random()
            raw = [r.randrange(256) if c < 0.2 else r.choice([0, 0, 0, 0, 1, 2]) for _ in range(n)]
            return [self.lay({"op": "vload", "a": self.addr(), "how": r.choice(["vec", "bytes", "stream"]), "in": raw})]
        if k == "trunc":
            return [self.lay(dict(op="vtrunc", a=self.addr(r.choice(["root", "any"])), how=r.choice(["vec", "bytes", "stream"])))]
        if k == "eswap":
            o = dict(op="veswap", a=self.addr(r.choice(["root", "any"])))
            return [o, o] if r.random() < 0.3 else [o]
        if k == "cswap":
            return [dict(op="vcswap", a=self.addr(r.choice(["root", "any"])), b=self.addr("like"), twice=r.random() < 0.3)]
        if k == "csv":
            sep = r.choice([" ", ",", ", ", ";"])
            via = r.random() < .4
            return [dict(op="vcsv", a=self.addr("plain"), sep=sep, num=r.random() < 0.8, viaptr=via),
                    dict(op="vhead", a=self.addr("plain"), sep=sep, name=r.choice(["v", "a.b", ""]), viaptr=via)]
        if k == "shape":
            return [dict(op="vshape", a=self.addr(r.choice(["root", "any"])), stop=r.choice([0, 0, 1, 2, 3, 5, 8]))]
        if k == "field":
            return [dict(op="vfield", a=self.addr("compound"), f="" if r.random() < 0.8 else r.choice(["f0", "f9", "", "x"]), n=r.randrange(9), rawp=r.random() < 0.3)]
        if k == "cast":
            return [dict(op="vcast", a=self.addr("leaf"), k="" if r.random() < .4 else r.choice(["sint1", "uint1", "sint2", "uint2", "sint4", "uint4", "sint8", "uint8", "float4", "float8"])) for _ in range(3)]
        raise KeyError(k)

    def history(self, length):
        self.types()
        self.slotflags = [(False, False)] * 5
        self.slott = [None] * 5
        self.ndump = -1
        n0 = len(self.ops)
        order = [1, 2, 3, 4]
        for v, t in zip(order, self.plan()):
            self.ops.append(self.vnew(v, (self.wanted(v) or t) if v > 2 else t))
        while len(self.ops) - n0 < length:
            self.ops += [dict(o) for o in self.step()]
        for v in order:
            self.ops.append(dict(op="vdel", v=v, rawp=self.r.random() < 0.3))
        return self.ops


def histories(seed, weights, count, length, **kw):
    rng = random.Random(str(seed))
    out = []
    for _ in range(count):
        out.append(G(rng, weights, **kw).history(length))
    return out
