"""Seeded generator of histories of operations on values of the Ruby bindings.

As in gen_val, what the operands are is resolved by the driver; the Ruby data
that is assigned is drawn by the driver too (from the seed of the operation),
since it depends on the type it is assigned to."""
import random
from gen_val import G as VG

NUMS = [("/int8_t", "sint", 1), ("/uint8_t", "uint", 1), ("/int16_t", "sint", 2), ("/uint16_t", "uint", 2), ("/int32_t", "sint", 4),
        ("/uint32_t", "uint", 4), ("/int64_t", "sint", 8), ("/uint64_t", "uint", 8), ("/float", "float", 4), ("/double", "float", 8),
        ("/bool", "uint", 1)]


class G(VG):
    def types(self):
        r, kw = self.r, self.kw
        self.ops = [dict(op="reset")]
        self.conts, self.uses, self.t = {}, {}, {}
        add = self.ops.append
        nums = list(NUMS)
        r.shuffle(nums)
        for n, c, s in nums[:r.randint(2, 6)]:
            add(dict(op="num", r=1, n=n, num=c, size=s))
            self.t[n] = (s, s, "n")
        if r.random() < 0.6:
            syms = ["B", "A", "zz", "b", "C"][:r.randint(1 if r.random() < .9 else 0, 5)]
            if syms:
                add(dict(op="enu", r=1, n="/E", how="add", vals=[[x, r.choice([0, 1, 2, 5, -3, 65536, 258, j, 305419896])] for j, x in enumerate(syms)]))
                self.t["/E"] = (4, 4, "e")
        if r.random() < kw.get("opaque", 0.12):
            s = r.choice([1, 3, 4, 8])
            add(dict(op="opq", r=1, n="/O", size=s))
            self.t["/O"] = (s, 1, "o")
        if r.random() < kw.get("pointer", 0.1):
            b = r.choice([n for n in sorted(self.t) if n != "/int8_t"] or ["/E"])
            if b in self.t:
                add(dict(op="toptr", r=1, n=b))
                self.t[b + "*"] = (8, 8, "p")
        if r.random() < kw.get("string", 0.6):
            if "/int8_t" not in self.t:
                add(dict(op="num", r=1, n="/int8_t", num="sint", size=1))
                self.t["/int8_t"] = (1, 1, "n")
            add(dict(op="cont", r=1, kind="/std/string", of="/int8_t"))
            self.t["/std/string"] = (32, 8, "c")
            self.conts["/std/string"] = "/int8_t"
        for k in range(r.randint(3, kw.get("ntypes", 9))):
            c = r.choices(["compound", "array", "vector"], kw.get("kinds", [5, 3, 4]))[0]
            if c == "compound":
                n = "/S%d" % k
                fs, off, al, tags = [], 0, 1, ""
                for j in range(r.choices([0, 1, 2, 3, 4, 5], [0.2, 3, 5, 4, 2, 1])[0]):
                    t = self.pick()
                    s, a, g = self.t[t]
                    if off + s > 150:
                        continue
                    if r.random() < 0.8:
                        off = (off + a - 1) // a * a
                    elif r.random() < 0.4:
                        off += r.choice([1, 2, 3])
                    name = "f%d" % j if r.random() < .9 else r.choice(["size", "name", "hash", "Big", "x_1"])
                    if any(f["n"] == name for f in fs):
                        name = "f%d" % j
                    fs.append(dict(n=name, t=t, off=off))
                    off += s
                    al = max(al, a)
                    tags += g
                if not fs and r.random() < .5:
                    continue
                o = dict(op="cmp", r=1, n=n, fields=fs)
                size = off
                c = r.random()
                if c < 0.6:
                    size = (off + al - 1) // al * al
                elif c < 0.75:
                    size = off + r.choice([1, 2, 5])
                if size != off and size > 0:
                    o["size"] = size
                add(o)
                self.t[n] = (size, al, tags)
                self.uses[n] = [f["t"] for f in fs]
            elif c == "array":
                t = "/int8_t" if "/int8_t" in self.t and r.random() < .3 else self.pick()
                cs = [x for x in sorted(self.t) if x.startswith("/S") and "[" not in x and self.t[x][0] <= 40]
                if cs and r.random() < .4:
                    t = r.choice(cs)
                d = r.choice([1, 2, 2, 3, 3, 5, 20]) if r.random() < .9 else 0
                s, a, g = self.t[t]
                if s * d > 150:
                    d = 2
                n = "%s[%d]" % (t, d)
                if n in self.t or s * d > 300:
                    continue
                add(dict(op="arr", r=1, of=t, dim=d))
                self.t[n] = (s * d, a, g)
                self.uses[n] = [t]
            else:
                t = self.pick()
                n = "/std/vector<%s>" % t
                if n in self.t or self.t[t][0] == 0:
                    continue
                add(dict(op="cont", r=1, kind="/std/vector", of=t))
                self.conts[n] = t
                self.t[n] = (24, 8, "c" + ("Z" if "o" in self.t[t][2] or "p" in self.t[t][2] or "Z" in self.t[t][2] else ""))
        if r.random() < .4:        # pointers that values do not contain
            for t in r.sample(sorted(self.t), min(len(self.t), 4)):
                if t != "/int8_t":
                    add(dict(op="toptr", r=1, n=t))
        self.two = r.random() < kw.get("second", 0.25)
        if self.two:
            add(dict(op="merge", r=2, **{"from": 1}))

    def seed(self):
        return self.r.randrange(1 << 30)

    def lay(self, o, p=0.3):
        if self.r.random() < p:
            o["unmerged"] = self.r.random() < 0.5
        for k, f in (("ptr", 0), ("opq", 1)):
            if self.flags[f] and self.r.random() < 0.8 or self.r.random() < 0.05:
                o[k] = True
        return o

    def vnew(self, v, t=None):
        r = self.r
        t = t or self.pick()
        g = self.t[t][2]
        self.slotflags[v] = self.flags = ("p" in g, "o" in g)
        self.slott[v] = t
        how = r.choices(["new", "zero", "init"], [2, 3, 3])[0]
        o = dict(op="vnew", v=v, r=2 if self.two and r.random() < 0.3 else 1, t=t, how=how)
        if how == "init":
            o["seed"] = self.seed()
        return o

    def fill(self, v, n):
        """Something in the value, written in several ways."""
        return [self.sset(v) if self.r.random() < .7 else self.push(v) for _ in range(n)]

    def sset(self, v=0, want=None):
        r = self.r
        o = dict(op="vset", a=self.addr(want or r.choice(["sub", "sub", "leaf", "text"]), v), how=r.choices(["set", "[]=", "method", "raw"], [3, 3, 3, 2])[0], seed=self.seed())
        if r.random() < .4:
            o["sym"] = True
        if r.random() < .04:
            o["bad"] = True
        return o

    def push(self, v=0):
        r = self.r
        return dict(op="vpush", a=self.addr("container", v), how=r.choices(["one", "push", "concat", "text"], [3, 2, 2, 1])[0], count=r.choice([0, 1, 2, 2, 3, 6]), seed=self.seed())

    def addr(self, want="any", v=0):
        r = self.r
        return dict(v=v or (r.randint(1, 4) if r.random() < .2 and want != "like" else 0), want=want, n=r.randrange(1000))

    def step(self):
        r = self.r
        k = r.choices(list(self.w), list(self.w.values()))[0]
        self.flags = r.choice(self.slotflags[1:])
        one = lambda op, want="any", **kw: [dict(op=op, a=self.addr(want), **kw)]
        if k == "new":
            v = r.randint(1, 4)
            d = [dict(op="vdel", v=v)] if r.random() < .5 else []
            return d + [self.vnew(v, self.wanted(v) or (r.choice(self.plan()) if r.random() < 0.7 else None))] + self.fill(v, r.randint(0, 4))
        if k == "wrap":
            o = dict(op="vnew", v=r.randint(1, 4), r=1, t=r.choice(sorted(self.t)), how="wrap", wrap=r.random() < .5)
            if r.random() < .5:
                v = r.randint(1, 4)
                o.update(t=self.slott[v] or o["t"], b=self.addr("root", v))
                c = r.random()
                if c < .15:
                    o["cut"] = r.randrange(100)
                elif c < .3:
                    o["ext"] = r.randint(1, 9)
                elif c < .4:
                    o["flip"] = r.randrange(200)
            else:
                o["in"] = [r.choice([0, 0, 0, 1, 2, r.randrange(256)]) for _ in range(r.choice([0, 1, 4, 8, 16, 24]))]
            self.slott[o["v"]] = o["t"]
            return [o]
        if k == "set":
            return [self.sset() for _ in range(r.randint(1, 4))]
        if k == "mut":
            return one("vmut", "text", seed=self.seed())
        if k == "meth":
            return one("vmeth", r.choice(["root", "any", "compound"]))
        if k == "get":
            return one("vget", r.choice(["any", "any", "root", "container", "compound"]))
        if k == "find":
            return one("vfind", r.choice(["any", "root", "container", "compound"]), seed=self.seed())
        if k == "ptr":
            return one("vptr")
        if k == "simple":
            o = dict(op="vsimple", a=self.addr(), pack=r.random() < .4, json=r.random() < .4)
            if r.random() < .5:
                o["sf"] = r.choice(["string", "nil"])
            return [o]
        if k == "dump":
            return [self.lay(dict(op="vdump", a=self.addr(r.choice(["root", "any"]))))]
        if k == "size":
            return one("vsize")
        if k == "load":
            o = self.lay(dict(op="vload", a=self.addr(r.choice(["root", "any"]))))
            if r.random() < .8:
                o["b"] = self.addr("like")
            else:
                o["in"] = [r.choice([0, 0, 0, 1, 2, r.randrange(256)]) for _ in range(r.choice([0, 1, 4, 8, 9, 16, 24, 33]))]
            c = r.random()
            if c < 0.12:
                o["cut"] = r.randrange(100)
            elif c < 0.22:
                o["ext"] = r.randint(1, 9)
            elif c < 0.35:
                o["flip"] = r.randrange(200)
            return [o]
        if k == "copy":
            return [dict(op="vcopy", b=self.addr(), a=self.addr("like" if r.random() < .9 else "any"))]
        if k == "dup":
            v = r.randint(1, 4)
            return one("vdup", r.choice(["root", "any", "container"]), v=v, seed=self.seed())
        if k == "cmp":
            c = dict(op="vcmp", b=self.addr(), a=self.addr("like" if r.random() < .85 else "any"))
            return [c] if r.random() < .5 else [dict(op="vcopy", b=c["b"], a=c["a"]), c]
        if k == "cast":
            return one("vcast", r2=r.randint(1, 2), t2=r.choice(sorted(self.t)))
        if k == "zero":
            return one("vzero")
        if k == "eswap":
            o = one("veswap")
            return o * 2 if r.random() < .3 else o
        if k == "cswap":
            return one("vcswap", v=r.randint(1, 4))
        if k == "csv":
            return one("vcsv", "plain", sep=r.choice([" ", ",", ";"]), name=r.choice(["v", "a.b", ""]))
        if k == "push":
            return [self.push() for _ in range(r.randint(1, 3))]
        if k == "erase":
            return one("verase", "container", seed=self.seed())
        if k == "delif":
            m = r.choice([2, 2, 3])
            return one("vdelif", "container", mod=m, rem=r.randrange(m))
        if k == "clear":
            return one("vclear", "container")
        if k == "slice":
            return one("vslice", "vector", v=r.randint(1, 4), i=r.choice([0, 0, 0, 1, 2, -1, 5]), k=r.choice([0, 1, 1, 2, 3]))
        if k == "ofsize":
            return one("vofsize", "container", v=r.randint(1, 4), k=r.choice([0, 1, 2, 5]), plain=r.random() < .3, seed=self.seed())
        if k == "memcpy":
            return one("vmemcpy", "numvec", bytes=[r.choice([0, 1, 2, 127, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 6]))], odd=r.random() < .1)
        if k == "hold":
            h = r.randint(1, 3)
            return one("vhold", "sub" if r.random() < .9 else "any", h=h)
        raise KeyError(k)

    def history(self, length):
        self.types()
        self.slotflags = [(False, False)] * 5
        self.slott = [None] * 5
        n0 = len(self.ops)
        for v, t in zip([1, 2, 3, 4], self.plan()):
            self.ops.append(self.vnew(v, (self.wanted(v) or t) if v > 2 else t))
            self.ops += self.fill(v, self.r.randint(0, 5))
        while len(self.ops) - n0 < length:
            self.ops += [dict(o) for o in self.step()]
        for v in (1, 2, 3, 4):
            self.ops.append(dict(op="vdel", v=v))
        self.ops.append(dict(op="inc", r=1, n="/bool"))
        return self.ops


BASE = dict(new=3, wrap=1, set=8, mut=2, meth=2, get=4, simple=2, dump=2, size=1, load=2, copy=3, dup=1, cmp=3, cast=1, zero=1, eswap=1, cswap=1, csv=2, push=4, erase=2, delif=1.5,
            clear=.7, slice=1, ofsize=1, memcpy=1, hold=3, find=1, ptr=.5)


def histories(seed, weights, count, length, **kw):
    rng = random.Random(str(seed))
    return [G(rng, weights, **kw).history(length) for _ in range(count)]
