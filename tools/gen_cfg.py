"""Universes and histories of configuration sets."""
import random

TEXTS = ["", "0", "1", "true", "false", "True", "2", "-1", "+7", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999",
         "12a", " 1", "1 ", "-", "x", "a:b", "0x10", "1.5", "a rather long value which is not kept in place", "-0", "00"]


def universe(thorough, kind):
    r = dict(op="keys", keys=["a", "b", "ab"])
    if kind == "values":
        ops = []
        for k in ("a", "b"):
            ops += [dict(op="set", s=1, k=k, v="1"), dict(op="insert", s=1, k=k, v="0"), dict(op="insert", s=1, k=k, v="x"), dict(op="erase", s=1, k=k),
                    dict(op="setl", s=1, k=k, l=[]), dict(op="setl", s=1, k=k, l=["7", "1"]), dict(op="insl", s=1, k=k, l=["1", "1"])]
        for t, d in (("int", 4), ("bool", True), ("string", "d")):
            ops += [dict(op="get", s=1, k="a", t=t, list=False, **{"def": []}), dict(op="get", s=1, k="a", t=t, list=False, **{"def": [d]}),
                    dict(op="get", s=1, k="a", t=t, list=True, **{"def": []}), dict(op="get", s=1, k="b", t=t, list=True, **{"def": [d, d]})]
        return dict(ops=ops, prefix=[r, dict(op="new", s=1, p=0)], depth=5 if thorough else 4, maxvals=5 if thorough else 3)
    ops = []
    n = 4 if thorough else 3
    for i in range(1, n + 1):
        for p in range(0, i):
            ops.append(dict(op="new", s=i, p=p))
        for c in range(1, n + 1):
            if c != i:
                ops += [dict(op="add", s=i, k=k, c=c) for k in ("a", "b")]
        ops += [dict(op="del", s=i), dict(op="set", s=i, k="a", v="v"), dict(op="erase", s=i, k="a")]
    return dict(ops=ops, prefix=[r], depth=7 if thorough else 6, maxvals=1)


def histories(seed, thorough):
    rnd = random.Random("cfg" + str(seed))
    out = []
    for _ in range(4000 if thorough else 600):
        keys = rnd.sample(["a", "b", "ab", "", "A", "a b", "/x", "aa", "prefix", "long key beyond the small string size"], rnd.randint(2, 6))
        h = [dict(op="reset"), dict(op="keys", keys=keys)]
        alive, owner, kids = set(), {}, {}

        def fam(i):
            return {i}.union(*[fam(c) for c in kids.get(i, [])]) if kids.get(i) else {i}
        for _ in range(rnd.randint(10, 60)):
            x = rnd.random()
            k = rnd.choice(keys)
            if not alive or x < .1:
                i = rnd.choice([j for j in range(1, 12) if j not in alive] or [0])
                if i:
                    h.append(dict(op="new", s=i, p=rnd.choice([0] + sorted(alive))))
                    alive.add(i)
                    kids[i] = []
                continue
            s = rnd.choice(sorted(alive))
            if x < .22:
                cs = [c for c in alive if c != s and c not in owner and s not in fam(c)]
                if cs:
                    c = rnd.choice(cs)
                    owner[c] = s
                    kids[s].append(c)
                    h.append(dict(op="add", s=s, k=k, c=c))
            elif x < .25:
                if s not in owner:
                    f = fam(s)
                    alive -= f
                    for c in f:
                        owner.pop(c, None)
                        kids.pop(c, None)
                    h.append(dict(op="del", s=s))
            elif x < .40:
                h.append(dict(op="insert", s=s, k=k, v=rnd.choice(TEXTS)))
            elif x < .50:
                h.append(dict(op="set", s=s, k=k, v=rnd.choice(TEXTS)))
            elif x < .58:
                h.append(dict(op=rnd.choice(["setl", "insl"]), s=s, k=k, l=[rnd.choice(TEXTS) for _ in range(rnd.randint(0, 5))]))
            elif x < .63:
                h.append(dict(op="erase", s=s, k=k))
            else:
                t = rnd.choice(["int", "bool", "string"])
                lst = rnd.random() < .5
                one = lambda: rnd.choice(dict(int=[0, 5, -3], bool=[True, False], string=["", "dflt"])[t])
                h.append(dict(op="get", s=s, k=k, t=t, list=lst, **{"def": [one() for _ in range(rnd.choice([0, 1, 3]) if lst else rnd.randint(0, 1))]}))
        h += [dict(op="del", s=s) for s in sorted(alive) if s not in owner]
        out.append(h)
    return out
