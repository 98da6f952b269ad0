"""Type names: all short strings, and longer ones grown from the grammar of
names and then damaged."""
import itertools, random

CHARS = list("/a<>,[]*2")
OTHER = list("/<>,A -_0.")


def name(r, d=0):
    def ident():
        return "".join(r.choice("abAB_09 ") for _ in range(r.choice([1, 1, 1, 2, 3])))

    def comp(last):
        s = ident()
        if d < 3 and r.random() < 0.3:
            s += "<" + ",".join(arg() for _ in range(r.choice([1, 1, 2, 3]))) + ">"
        if r.random() < (0.4 if last else 0.1):
            s += "".join(r.choice(["*", "[2]", "[0]", "[10]", "**"]) for _ in range(r.randint(1, 3)))
        return s

    def arg():
        c = r.random()
        return r.choice(["1", "-2", "0", ""]) if c < 0.2 else name(r, d + 1)
    n = r.choices([1, 2, 3, 4], [4, 4, 2, 1])[0]
    return "/" + "/".join(comp(k == n - 1) for k in range(n))


def damage(r, s):
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        k = r.randrange(len(s) + 1)
        c = r.random()
        if c < 0.35:
            s = s[:k] + s[k + 1:]
        elif c < 0.7:
            s = s[:k] + r.choice("/<>,[]*2a -.") + s[k:]
        elif s:
            j = r.randrange(len(s) + 1)
            s = s[:k] + s[min(j, k):max(j, k)] + s[k:]
    return s[:60]


def histories(seed, thorough):
    r = random.Random(str(seed))
    out = []

    def enum(chars, length, cut):
        for n in range(length + 1):
            if n <= cut:
                out.append([dict(op="enum", prefix="", chars=chars, n=n)])
            else:
                for p in itertools.product(chars, repeat=n - cut):
                    out.append([dict(op="enum", prefix="".join(p), chars=chars, n=cut)])
    enum(CHARS, 6 if thorough else 5, 3)
    enum(OTHER, 5 if thorough else 4, 3)
    names = set()
    for k in range(1500 if thorough else 150):
        q = sorted({damage(r, name(r)) if r.random() < 0.7 else name(r) for _ in range(60)} | ({s[1:] for s in [name(r)]}))
        out.append([dict(op="list", q=q)])
        names |= set(q[:8])
    # ordering: names that are close to each other
    names = sorted(names)
    for k in range(150 if thorough else 25):
        base = [r.choice(names) for _ in range(6)] + ["/A", "/A/B", "/A/B/C", "/A-B", "/A B", "/A*"]
        q = set(base)
        while len(q) < 40:
            s = r.choice(sorted(q))
            i = r.randrange(len(s) + 1)
            q.add(r.choice([s[:i], s[:i] + "/" + s[i:], s[:i] + r.choice("aA0<*-. ") + s[i:], s + "/" + r.choice("ab")]))
        out.append([dict(op="sort", q=sorted(q))])
    parts = ["A", "B", "AB", "A_A"]
    spaces = ["/"] + ["/" + "/".join(p) + "/" for n in (1, 2, 3) for p in itertools.product(parts, repeat=n)]
    for s in spaces:
        q = [s + "T"] + ([s + "A", s + "V</B/A>", s + "A[2]"] if thorough or r.random() < .3 else [])
        others = spaces if thorough else r.sample(spaces, 40)
        out.append([dict(op="paths", q=q, ns=others + [x[:-1] for x in others[:20] if x != "/"])])
    return out
