"""selftest.py [N]: corrupts one leaf of what was observed in one event of an accepted
trace, N times per driver, and counts what TLC rejects (at that very event).  Leaves
that are not specified (padding, uninitialised memory, unordered results...) are not
rejected: they are listed, so that they can be judged."""
import copy, json, os, random, shutil, sys
import concurrent.futures as cf
import vlib, check, gen_reg, gen_val, gen_names, gen_cfg, gen_sing, gen_rb, gen_rbval

CASES = {
    "regdrv": ("RegistryTrace", lambda: gen_reg.histories("self", check.ALL, 3, 30)),
    "regdrv-values": ("ValueTrace", lambda: [o for h in gen_val.histories("self", check.VB, 3, 30) for o in h]),
    "namedrv": ("NamesTrace", lambda: [o for h in gen_names.histories("self", False)[:1] for o in h][:3]),
    "cfgdrv": ("ConfigSetTrace", lambda: [o for h in gen_cfg.histories("self", False)[:6] for o in h]),
    "thrdrv": ("SingletonTrace", lambda: [o for h in gen_sing.histories("self", 6, [1]) for o in h]),
    "rbreg": ("RubyTrace", lambda: gen_rb.histories("self", gen_rb.ALL, 3, 25)),
    "rbval": ("RubyValueTrace", lambda: [o for h in gen_rbval.histories("self", gen_rbval.BASE, 3, 30) for o in h]),
}
SEEN = {"rbreg": ["res", "out", "np", "st"], "rbval": ["res", "out", "vs", "hs", "st"]}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
        if x and path:
            yield path + ("drop",)
    else:
        yield path


def corrupt(ev, path, rng):
    ev = copy.deepcopy(ev)
    at = ev
    last = path[-1]
    for k in path[:-1]:
        at = at[k]
    if last == "drop":
        del at[rng.randrange(len(at))]
    else:
        v = at[last]
        at[last] = (not v) if isinstance(v, bool) else (v + rng.choice([1, 3]) if isinstance(v, int) else v + "x")
    return ev


def case(name, n):
    drv = name.split("-")[0]
    mod, gen = CASES[name]
    ops = gen()
    wd = vlib.OUTD + "/selftest/" + name
    j = vlib.Job(mod, drv, ops, wd)
    j.run()
    if j.reject is not None or j.crash:
        raise vlib.MachineError("%s: %s %s" % (name, j.reject, j.crash))
    lines = [json.loads(x) for x in open(j.trace)]
    rng = random.Random(name)
    hit = miss = other = 0
    open_ = {}
    for k in range(n):
        while True:
            i = rng.randrange(len(lines))
            keys = [x for x in SEEN.get(drv, [x for x in lines[i] if x not in ops[i]]) if x in lines[i] and x not in ops[i]]
            top = rng.choice(keys) if keys else None
            ps = [p for p in leaves({top: lines[i][top]})] if top else []
            if ps:
                break
        p = rng.choice(ps)
        c = vlib.Job(mod, drv, ops, "%s-%d" % (wd, k))
        shutil.rmtree(c.wd, ignore_errors=True)
        os.makedirs(c.wd)
        c.trace, c.events = c.wd + "/trace.ndjson", len(lines)
        with open(c.trace, "w") as f:
            for m, e in enumerate(lines):
                f.write(json.dumps(corrupt(e, p, rng) if m == i else e) + "\n")
        try:
            c.validate()
        except vlib.MachineError:
            c.reject = i       # not even a state
        shutil.rmtree(c.wd, ignore_errors=True)
        if c.reject is None:
            miss += 1
            w = lines[i]["op"] + ":" + ".".join("*" if isinstance(q, int) else q for q in p)
            open_[w] = open_.get(w, 0) + 1
        elif c.reject == i:
            hit += 1
        else:
            other += 1
    return name, hit, other, miss, open_


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    vlib.build("asan", ["lib", "plugins"] + [vlib.ROOT + "/build/asan/" + d for d in ("regdrv", "namedrv", "cfgdrv", "thrdrv", "rbreg", "rbval")])
    with cf.ThreadPoolExecutor(7) as ex:
        for f in [ex.submit(case, c, n) for c in CASES]:
            name, hit, other, miss, open_ = f.result()
            print("%s: %d rejected at the event, %d at another, %d accepted %s" % (name, hit, other, miss, open_))
