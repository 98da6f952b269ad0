"""Seeded generator of call histories for the registry of the Ruby bindings."""
import random, re
import gen_reg
from gen_reg import KEYS, VALS, SRCS


class RG(gen_reg.G):
    """the Ruby form of the calls; the picks are those of gen_reg"""

    def __init__(self, rng, weights, **kw):
        super().__init__(rng, weights, **kw)
        self.kw = kw

    def op_add(self, i):
        o = super().op_add(i)
        s, r = o["spec"], self.r
        c = s["cat"]
        if c == "numeric":
            return dict(op="num", r=i, n=s["n"], size=s["size"], num=s["num"])
        if c == "opaque":
            return dict(op="opq", r=i, n=s["n"], size=s["size"])
        if c == "null":
            return dict(op="nul", r=i, n=s["n"])
        if c == "enum":
            v = [x if r.random() < .6 else x[:1] for x in s["vals"]]
            if v and r.random() < .08:
                v.append([v[0][0], 77])
            x = dict(op="enu", r=i, n=s["n"], vals=v, how=r.choice(["add", "set"]))
            if r.random() < .15:
                x["size"] = r.choice([1, 2, 4, 8])
            return x
        if c == "array":
            x = dict(op="arr", r=i, of=s["on"], dim=s["dim"])
            if r.random() < .5:
                x["o"] = True
            if r.random() < .1:
                x["size"] = r.choice([8, 40])
            return x
        if c == "pointer":
            return dict(op="toptr", r=i, n=s["on"])
        fs = []
        loose = r.random() < .3           # offsets left to the bindings
        for k, f in enumerate(s["fields"]):
            x = dict(n=f["n"], t=f["t"])
            if r.random() < .4:
                x["o"] = True
                if r.random() < .06:
                    x["fr"] = r.choice([1, 2, 3])
            elif r.random() < .15:
                x["t"] = f["t"] + self.mods()
            if not loose:
                x["off"] = f["off"]
            elif r.random() < .4:
                x["set"] = True
            fs.append(x)
        if loose and fs and r.random() < .35:
            k = r.randrange(len(fs))        # one offset is given, which may leave a gap
            fs[k].pop("set", None)
            fs[k]["off"] = s["fields"][k]["off"] + r.choice([0, 3, 4, 8, 16])
        if len(fs) > 1 and r.random() < .05:
            fs[-1]["n"] = fs[0]["n"]
        x = dict(op="cmp", r=i, n=s["n"], fields=fs)
        if s.get("size") and not loose and not any(f["t"].endswith(("*", "]")) for f in fs):
            x["size"] = s["size"]
        return x

    def op_similar(self, i):
        o = super().op_similar(i)
        return o

    def op_container(self, i):
        o = super().op_container(i)
        r = self.r
        x = dict(op="cont", r=i, kind=o["kind"], of=o["of"])
        if r.random() < .5:
            x["o"] = True
            if r.random() < .08:
                x["fr"] = r.choice([1, 2])
        elif r.random() < .2:
            x["of"] += self.mods()
        if r.random() < .08:
            x["size"] = r.choice([24, 32, 40])
        return x

    def op_alias(self, i):
        o = super().op_alias(i)
        return dict(op="alias", r=i, base=o["base"], name=o["name"])

    def op_get(self, i): return dict(op="get", r=i, n=self.any(i, .3))
    def op_inc(self, i): return dict(op="inc", r=i, n=self.any(i, .3) + (self.mods() if self.r.random() < .2 else ""))
    def op_toptr(self, i): return dict(op="toptr", r=i, n=self.any(i))
    def op_prefix(self, i): return dict(super().op_prefix(i), al=self.r.random() < .6)
    def other(self, i): return self.r.choice([x for x in (1, 2, 3) if x <= max(2, self.regs) and x != i] or [1])

    def op_addt(self, i):
        j = self.other(i)
        n = self.any(j)
        if n in self.k[j]:
            self.put(i, n, *self.k[j][n])
        return {"op": "addt", "r": i, "from": j, "n": n}

    def op_dup(self, i):
        d = self.r.choice([x for x in (1, 2, 3) if x != i])
        self.k[d] = dict(self.k[i])
        return dict(op="dup", r=i, d=d)

    def op_minimal(self, i):
        o = super().op_minimal(i)
        if self.r.random() < .4:
            del o["al"]
        return o

    def op_minreg(self, i): return dict(self.op_minimal(i), op="minreg")

    def op_minimal2(self, i):
        o = super().op_minimal2(i)
        if self.r.random() < .4:
            del o["keep"]
        return o

    def op_resize(self, i):
        o = super().op_resize(i)
        if o["op"] == "resize" and self.r.random() < .5 and not any(n in self.k[i] and self.k[i][n][2] != n for n, _ in o["grow"]):
            o["o"] = True
        return o

    def op_srcof(self, i):
        o = dict(op="srcof", r=i, n=self.any(i))
        if self.r.random() < .3:
            o["from"] = self.other(i)
            o["n"] = self.any(o["from"])
        return o

    def op_meta(self, i):
        o = super().op_meta(i)
        r = self.r
        o["mode"] = r.choices(["set", "set1", "add", "clear", "delete", "clearall"], [3, 2, 6, 1, 1, .5])[0]
        o["v"] = [r.choice(VALS) for _ in range(r.choices([0, 1, 2, 3], [1, 5, 2, 1])[0])]
        return o

    def op_tlbload(self, i):
        o = super().op_tlbload(i)
        o["how"] = self.r.choice(["xml", "xml", "file", "auto", "merge"])
        return o

    def op_tlbtrip(self, i):
        o = super().op_tlbtrip(i)
        return dict(op="tlbtrip", r=i, d=o["d"], how=self.r.choice(["xml", "export", "file"]))

    def op_typexml(self, i):
        o = self.op_minimal(i)
        return dict(op="typexml", r=i, n=o["n"], d=o["d"])

    def op_idl(self, i):
        o = super().op_idl(i)
        o.pop("again", None)
        return o


    def name(self, i):
        r = self.r
        if self.kw.get("export") and r.random() < .5:
            return r.choice(["", "", "/N", "/Ns_m", "/aB", "/N/M"]) + "/" + r.choice(["XyZ", "xy_W", "Cd_e", "A", "B", "ab", "M", "N", "Tp<-1,/A>", "Tp</N/A>", "Tp<-1,/N/A>", "Tp<-1,3>"])
        return super().name(i)

    def call(self, comp, const):
        r = self.r
        if const:
            return [r.choice([comp] * 3 + [comp.lower(), comp.swapcase(), comp.replace("_", ""), comp[:1] + re.sub("([A-Z])", r"_\1", comp[1:]).lower()]) or "A"]
        m = re.match(r"([^<]+)<(.*)>$", comp)
        if not m or r.random() < .1:
            return [comp]
        return [m[1]] + (m[2].split(",") if "<" not in m[2] and r.random() < .7 else [m[2]])

    def op_export(self, i):
        r = self.r
        o = dict(op="export", r=i, how=r.choice(["mod", "ns"]), paths=[])
        const = r.random() < .4
        if const:
            o["const"] = True
        for _ in range(r.randint(1, 5)):
            q = split(self.any(i, 0))
            if r.random() < .15:
                q = q[:r.randint(1, len(q) or 1)]
            if r.random() < .15:
                q = q + split(self.any(i, 0))[-1:]
            if q:
                o["paths"].append([self.call(x, const) for x in q])
        tps = [x for x in sorted(self.k[i]) if "<" in x]
        for x in r.sample(tps, min(len(tps), r.choice([0, 2, 3]))):
            o["paths"].append([self.call(y, const) for y in split(x)])
        if r.random() < .25:
            o["mod"] = (r.choice(o["paths"] or [[["A"]]])[0][0])
            o["paths"].append([[o["mod"]]])
        c = r.random()
        if c < .15:
            o["hide"] = self.any(i, 0)
        elif c < .2:
            o["sub"] = True
        elif c < .4:
            o["x2r"] = True
        return o


def split(n):
    q, lvl = [""], 0
    for ch in n:
        lvl += (ch == "<") - (ch == ">")
        if ch == "/" and lvl == 0:
            q.append("")
        else:
            q[-1] += ch
    return [x for x in q if x]


BASE = dict(add=10, container=3, alias=4, build=5, toptr=1)


def histories(seed, weights, count, length, **kw):
    rng = random.Random(seed)
    g = RG(rng, weights, **kw)
    for _ in range(count):
        g.run(length)
    return g.ops


ALL = dict(BASE, remove=2, removeAlias=1, clearAliases=.3, rdeps=1, merge=2, addt=1.5, dup=.7, minimal=1, minreg=.7, minimal2=.7, get=1, inc=1,
           meta=2, srcof=.7, enumget=1, same=1, tlbtrip=1, tlbload=1.5, tlbraw=.2, typexml=.5, resize=1.5, prefix=1, aliasesOf=1, export=1)

if __name__ == "__main__":
    import json, sys
    for o in histories(int(sys.argv[1]), ALL, int(sys.argv[2]), int(sys.argv[3])):
        print(json.dumps(o))
