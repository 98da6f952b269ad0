"""Universes and histories of the singletons and of the plugin manager."""
import random
P = 5


def conf(deps=None, temp=None, dtemp=None, fails=None, dirs=("none",), spin=0):
    f = lambda d: [list((d or {}).get(n, [])) for n in range(1, 5)]
    return dict(op="conf", deps=f(deps), temp=f(temp), dtemp=f(dtemp), fails=[(fails or {}).get(n, 0) for n in range(1, 5)], dirs=list(dirs), spin=spin)


def single(i, o):
    ths = [[], [], []]
    ths[i % 3] = [o]
    return dict(op="par", threads=ths)


def universe(kind, thorough):
    if kind == "plugins":
        c = conf(dirs=["tlb", "junk"])
        ops = []
        for h in (1, 2):
            ops += [dict(op="acq", h=h, n=P), dict(op="rel", h=h)]
        ops += [dict(op="copy", h=2, **{"from": 1})]
        n = 0
        for k in ("exp", "imp"):
            for name in ("x", "tlb"):
                n += 1
                ops += [dict(op="padd", h=1, kind=k, name=name, id=n), dict(op="pget", h=2, kind=k, name=name)]
        ops += [dict(op="padd", h=1, kind="def", name="", id=5), dict(op="preg"), dict(op="psave", name="x", how="string", opt="o"), dict(op="pload", name="x", how="new", opt="o"),
                dict(op="padd", h=2, kind="exp", name="idl", id=6)]
        d = 6 if thorough else 5
    else:
        c = dict(chain=conf(deps={1: [2], 2: [3]}, fails={2: 1}),
                 temps=conf(temp={1: [2], 2: [3]}, dtemp={1: [3], 3: [4]}),
                 mixed=conf(deps={1: [2, 3, 2]}, temp={2: [4]}, dtemp={2: [4], 1: [4]}, fails={3: 1, 4: 1}),
                 plain=conf())[kind]
        ops = []
        for h in range(1, 5 if thorough else 4):
            ops += [dict(op="acq", h=h, n=n) for n in (1, 2, 3)] + [dict(op="rel", h=h)]
            if h > 1:
                ops += [dict(op="copy", h=h, **{"from": 1}), dict(op="inst", h=h)]
        d = 6 if thorough else 5
    return dict(ops=[single(i, o) for i, o in enumerate(ops)], prefix=[c], depth=d)


def histories(seed, count, threads):
    rnd = random.Random("sing" + str(seed))
    out = []
    for _ in range(count):
        def dag(p):
            return {n: [rnd.randint(n + 1, 4) for _ in range(rnd.choice([0, 1, 1, 2]))] for n in range(1, 4) if rnd.random() < p}
        style = rnd.random()
        dirs = rnd.choice([["none"], ["tlb"], ["idl"], ["all"], ["tlb", "idl"], ["tlb", "tlb"], ["all", "junk"], ["junk"], ["tlb", ""], ["none", "tlb"], ["", "idl"], ["empty", "tlb"], ["tlb", "", "idl"]])
        c = conf(dag(.5 * style), dag(.4 * style), dag(.4 * style), {n: rnd.choice([0, 0, 1, 2]) for n in range(1, 5)} if rnd.random() < .3 else {}, dirs, rnd.choice([0, 0, 1, 3, 10]))
        h = [dict(op="reset"), c]
        held = {}                       # handle -> name
        pid = [0]
        weights = rnd.choice([[1, 1, 1, 1, 0], [3, 1, 0, 0, 0], [1, 1, 1, 1, 3], [0, 0, 0, 0, 1], [1, 0, 0, 0, 1]])
        nofail = not any(c["fails"])
        for _b in range(rnd.randint(2, 8)):
            # plugins are added while nothing else goes on
            for k in list(held):
                if held[k] == P and rnd.random() < .4 and pid[0] < 9:
                    pid[0] += 1
                    h.append(dict(op="par", threads=[[dict(op="padd", h=k, kind=rnd.choice(["exp", "imp", "def"]), name=rnd.choice(["x", "y", "tlb", "idl"]), id=pid[0])]]))
            nt = rnd.choice(threads)
            shared, before = dict(held), set(held)
            if nt > 1:
                # each thread has handles of its own; the others' it may copy
                own = {t: [] for t in range(nt)}
                give = set()
                for k in shared:
                    if rnd.random() < .5:
                        own[rnd.randrange(nt)].append(k)
                        give.add(k)
            else:
                own, give = {0: list(shared)}, set(shared)
            ths = []
            for t in range(nt):
                mine = {k: shared[k] for k in own[t]}
                seen = {k: v for k, v in shared.items() if k not in give}
                q = []
                for _o in range(rnd.choice([1, 3, 6, 10]) if nt < 4 else rnd.randint(1, 4)):
                    free = [k for k in range(1 + 15 * t, 16 + 15 * t) if k not in mine and k not in before]
                    anyh = list(mine.items()) + list(seen.items())
                    x = rnd.random()
                    pms = [k for k, v in anyh if v == P]
                    if pms and x < .25:
                        q.append(dict(op="pget", h=rnd.choice(pms), kind=rnd.choice(["exp", "imp"]), name=rnd.choice(["x", "y", "tlb", "idl", "none"])))
                    elif weights[4] and x < .4:
                        y = rnd.random()
                        if y < .4:
                            q.append(dict(op="preg"))
                        elif y < .7:
                            q.append(dict(op="psave", name=rnd.choice(["x", "y"]), how=rnd.choice(["string", "plain", "stream", "plainstream"]), opt=rnd.choice(["", "o"])))
                        else:
                            q.append(dict(op="pload", name=rnd.choice(["x", "y"]), how=rnd.choice(["new", "newfile", "newplain", "newfileplain", "into", "intofile", "intoplain", "intofileplain"]), opt=rnd.choice(["", "o"])))
                    elif anyh and x < .5:
                        q.append(dict(op="inst", h=rnd.choice(anyh)[0]))
                    elif anyh and free and x < .62:
                        f = rnd.choice(anyh)
                        q.append(dict(op="copy", h=free[0], **{"from": f[0]}))
                        mine[free[0]] = f[1]
                    elif mine and x < .85:
                        k = rnd.choice(list(mine))
                        q.append(dict(op="rel", h=k))
                        del mine[k]
                        shared.pop(k, None)
                    elif free and (nofail or nt == 1):
                        n = rnd.choices([1, 2, 3, 4, P], weights)[0]
                        q.append(dict(op="acq", h=free[0], n=n))
                        mine[free[0]] = n
                        if not nofail:
                            # it may fail: nothing that depends on it follows
                            mine.pop(free[0])
                            q.append("may")
                            break
                ths.append((q, mine))
            ops = []
            for q, mine in ths:
                ops.append([o for o in q if o != "may"])
            h.append(dict(op="par", threads=ops))
            may = [q[-2]["h"] for q, _m in ths if q and q[-1] == "may"]
            # what is held afterwards
            for k in list(held):
                if k in give:
                    held.pop(k)
            for q, mine in ths:
                held.update(mine)
            if may:                     # the handle is not used any more: end of the history
                break
        out.append(h)
    return out
