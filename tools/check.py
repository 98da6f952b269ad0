"""check.py PROPERTY: builds the current tree, explores the specification,
replays its behaviours and seeded histories on the implementation, validates
the traces.  VERIF_TIER / VERIF_SEED select the effort and the seed."""
import os, sys, traceback
import vlib, gen_reg, gen_val, gen_names, gen_cfg, gen_sing, gen_rb, gen_rbval, gen_cxx, universes, universes_val, universes_rb, universes_cxx

B = dict(gen_reg.BASE)


def W(**kw):
    d = dict(B)
    d.update(kw)
    return d


ALL = W(remove=2, removeAlias=1, clearAliases=.3, clear=.1, rdeps=1, setns=2, merge=2, minimal=1, minimal2=.7, has=2, meta=2, tb=.4, tbs=.3,
        setsrc=1, mergemeta=.5, enumget=1, enumadd=1, same=1, order=1, tlbsave=1, tlbtrip=1, tlbload=1.5, tlbraw=.2, resize=1.5,
        find=.5, prefix=1, fullname=.3, included=.3, aliasesOf=1)
RES, IMP = "RegistryMC.cfg", "RegistryMCImport.cfg"

# property: (universes, [(weights, histories, length, options)])
REG = {
    "C01": (["derived-", "merge-", "names"],
            [(ALL, 260, 40, {}), (W(remove=4, alias=6, clearAliases=1, removeAlias=3, prefix=2, find=1, included=1, setsrc=1), 200, 40, {}),
             (W(tlbload=4, merge=4, remove=2, tlbraw=.5, find=1, copysrc=1), 120, 30, {}),
             (W(stdtypes=2, build=3, remove=1, merge=1, setns=1, clear=1), 16, 14, dict(maxnames=100))]),
    "C02": (["names", "imports"],
            [(W(setns=8, alias=8, removeAlias=4, remove=3, clearAliases=1, fullname=4, has=4, find=2), 300, 50, {}),
             (W(setns=6, alias=6, removeAlias=3, remove=3, clearAliases=1, fullname=4, has=4, find=2, **{"import": 4}), 160, 40, {}),
             (W(setns=6, alias=5, remove=2, merge=2, tlbload=1, resize=.5), 100, 40, {})]),
    "C03": (["merge", "clash"],
            [(W(merge=10, alias=6, meta=3, setsrc=2, removeAlias=1, setns=1, enumadd=1), 320, 40, dict(maxnames=10, similar=.5)),
             (W(merge=8, addrec=3, container=6, alias=6, resize=1, meta=2), 160, 40, dict(regs=3, maxnames=12, similar=.4))]),
    "C04": (["minimal"],
            [(W(minimal=8, minimal2=5, alias=6, meta=3, setsrc=2, container=5, addrec=2), 360, 40, {}),
             (W(minimal=8, minimal2=5, alias=6, merge=1, remove=1, setns=1, tlbload=1), 160, 40, dict(maxnames=20))]),
    "C05": (["derived-", "names"],
            [(W(remove=8, rdeps=6, alias=6, aliasesOf=3, build=8, container=5, addrec=3, setns=2), 420, 50, dict(maxnames=18)),
             (W(remove=6, rdeps=4, alias=6, removeAlias=3, clearAliases=2, clear=.5, build=8, setns=4), 120, 40, {})]),
    "C06": (["derived-"],
            [(W(alias=14, build=10, aliasesOf=5, removeAlias=2, container=6, remove=1, has=4), 420, 40, {}),
             (W(alias=12, merge=3, minimal=2, setns=3, aliasesOf=4), 120, 40, {})]),
    "C07": (["compare"],
            [(W(same=10, resize=3, alias=3, addrec=5, merge=2, enumadd=2), 360, 30, dict(maxnames=12, similar=.5)),
             (W(same=8, addrec=6, container=6, build=8), 160, 30, dict(regs=3, maxnames=10, similar=.5))]),
    "C08": (["tlb"],
            [(W(tlbtrip=8, tlbsave=4, iofail=.6, alias=6, meta=5, setsrc=4, container=5, enumadd=2, resize=1, setns=1), 360, 30, dict(maxnames=18)),
             (W(tlbtrip=8, merge=2, alias=8, minimal=1, removeAlias=1, remove=1), 140, 30, {})]),
    "C09": (["tlb"],
            [(dict(tlbload=20, tlbtrip=3, add=5, alias=3, container=2, build=2, same=1, clear=1, tlbraw=2, iofail=.7, setns=1), 420, 25, dict(maxnames=24)),
             (dict(tlbload=20, tlbtrip=3, add=5, alias=3, container=2, build=2, clear=1, tlbraw=2), 160, 25, dict(maxnames=24))]),
    "C10": (["tlb"],
            [(W(order=8, tlbsave=6, iofail=.5, alias=8, addrec=2.5, container=6, build=8), 380, 40, dict(maxnames=22)),
             (W(order=8, tlbsave=5, setns=3, alias=6, remove=1, merge=1, removeAlias=1, clear=.4), 140, 40, {})]),
    "C18": (["derived"],
            [(W(build=16, tb=8, tbs=6, has=8, container=8, alias=5, setns=3, fullname=2), 420, 40, dict(maxnames=26, psize=.15)),
             (W(build=10, tb=4, tbs=3, has=8, remove=2, alias=5, setns=4, resize=1, addrec=2), 120, 40, {})]),
    "C19": (["derived-"],
            [(W(resize=10, build=6, container=5, alias=3, addrec=2, same=1), 460, 30, dict(maxnames=16)),
             (W(resize=6, merge=2, minimal=1, tlbtrip=1, remove=1), 100, 30, {})]),
    "C21": (["idl"],
            [(dict(add=8, container=3, build=2, alias=5, idl=8, remove=.4, enumadd=.5), 420, 40, dict(idl=.97, maxnames=18)),
             (dict(add=8, container=4, build=3, alias=6, idl=8, addrec=.05, resize=.4, remove=1, setns=1, merge=1, meta=.5), 160, 40, dict(idl=.8, maxnames=16)),
             (W(idl=8, alias=6, container=6, remove=2, clear=1), 80, 30, dict(maxnames=8))]),
    "C22": (["merge-", "minimal-"],
            [(W(meta=14, mergemeta=5, merge=4, setsrc=5, minimal=2, tlbtrip=2, add=8, copysrc=2), 400, 40, {}),
             (W(meta=10, mergemeta=6, setsrc=5, merge=3, alias=3), 120, 40, dict(regs=3))]),
    "C26": (["listing"],
            [(W(dump=8, show=6, setsrc=3, container=5, alias=6, addrec=2, remove=1), 320, 40, {}),
             (W(dump=4, show=4, merge=2, minimal=2, copysrc=2, setsrc=4, removeAlias=1, resize=1, setns=1), 160, 40, {})]),
    "C23": (["compare"],
            [(dict(add=6, enumadd=14, enumget=16, merge=2, same=2, tlbtrip=2, minimal=1), 420, 40, dict(maxnames=10))]),
}


def reg_check(c, prop):
    uni, mixes = REG[prop]
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/regdrv"])
    items = [(n, IMP if n == "imports" else RES, universes.universe(n.rstrip("-"), c.thorough, 1 if n[-1] == "-" else 0)) for n in uni]
    hs = c.explore("RegistryMC", items)
    for k, (w, cnt, ln, kw) in enumerate(mixes):
        ops = gen_reg.histories("%s/%d/%d" % (prop, c.seed, k), w, cnt * (12 if c.thorough else 1), ln, **kw)
        hs += vlib.split_resets(ops)
    c.conform("RegistryTrace", "regdrv", hs)


VB = dict(new=2, poke=6, zero=1, copy=3, cmp=3, twin=1, push=6, fill=4, erase=2, set=1, delif=1.5, clear=.5, count=1, visit=1.5, dump=3, size=1, load=3,
          loadraw=.7, trunc=.7, eswap=.8, cswap=1, csv=1, field=.5, cast=.5)


def V(**kw):
    d = dict(VB)
    d.update(kw)
    return d


BASE = dict(new=1.5, poke=6, push=5, fill=3, copy=1)
VAL = {
    "C11": (["flat", "loads", "nest-"],
            [(V(dump=8, load=12, size=2), 220, 45, dict(pcont=.8)), (dict(BASE, dump=6, load=14, zero=1, delif=1), 120, 45, dict(pcont=.9, ntypes=12))]),
    "C12": (["loads+", "flat-"],
            [(dict(BASE, dump=6, load=4, loadraw=5, trunc=8, size=5, clear=1, zero=1), 260, 35, dict(pcont=.75)),
             (dict(BASE, dump=10, load=2, loadraw=8, trunc=4, size=3), 120, 35, dict(pcont=.9, odd=0, opaque=.1))]),
    "C13": (["flat", "string-", "nest-"],
            [(V(zero=5, copy=9, cmp=9, twin=6, new=5, load=1, dump=.5, csv=.2, eswap=.3, cswap=.3), 260, 50, {}),
             (dict(BASE, zero=4, copy=10, cmp=8, twin=8, new=5, clear=1), 120, 50, dict(pcont=.9)), (dict(BASE, zero=2, copy=5, cmp=6, twin=12, new=5), 100, 40, dict(pcont=.15))]),
    "C14": (["seq", "nest", "string-"],
            [(dict(BASE, push=10, fill=6, erase=6, set=5, delif=5, clear=2, count=5, visit=2, cmp=1, copy=3), 260, 55, dict(pcont=1.0)),
             (dict(BASE, push=10, fill=6, erase=4, set=4, delif=3, clear=1, count=4, copy=3, load=2, zero=1), 100, 55, dict(pcont=1.0, second=.6, ntypes=14))]),
    "C15": (["flat", "nest-"],
            [(dict(BASE, eswap=10, cswap=14, cmp=2, twin=1), 280, 50, dict(pcont=.35)),
             (dict(new=3, poke=8, eswap=8, cswap=14, copy=2, cmp=1), 160, 50, dict(pcont=0, odd=.2, kinds=[6, 4, 1], pointer=.1))]),
    "C16": (["flat"],
            [(dict(new=3, poke=10, copy=2, csv=20), 320, 60, dict(pcont=0, kinds=[6, 4, .5], opaque=.35, pointer=.05, string=.1, lateptr=.8)),
             (dict(new=3, poke=10, zero=1, eswap=1, csv=20), 120, 60, dict(pcont=.1, kinds=[6, 6, 1], ntypes=14, lateptr=.5))]),
    "C24": (["flat", "nest-", "seq-"],
            [(dict(BASE, visit=12, field=8, cast=8, shape=6), 280, 50, dict(pcont=.6)), (dict(BASE, visit=12, field=6, cast=4, erase=1, delif=1, shape=6), 120, 50, dict(pcont=.9, opaque=.4, pointer=.3))]),
}


def val_check(c, prop):
    uni, mixes = VAL[prop]
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/regdrv"])
    items = [(n, "ValueMC.cfg", universes_val.universe(n.rstrip("-+"), c.thorough, n.count("-") - n.count("+"))) for n in uni]
    hs = c.explore("ValueMC", items)
    for k, (w, cnt, ln, kw) in enumerate(mixes):
        ops = gen_val.histories("%s/%d/%d" % (prop, c.seed, k), w, cnt * (15 if c.thorough else 1), ln, **kw)
        hs += ops
    c.conform("ValueTrace", "regdrv", hs)


def names_check(c):
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/namedrv"])
    items = [("strings", "NamesMC", dict(chars=gen_names.CHARS, max=6 if c.thorough else 5)),
             ("strings2", "NamesMC", dict(chars=gen_names.OTHER, max=6 if c.thorough else 4)),
             ("order", "NamesOrderMC", dict(chars=["/", "a", "b"] + (["-"] if c.thorough else []), max=3, parts=["A", "B", "AB"], depth=3)),
             ("order2", "NamesOrderMC", dict(chars=["/", "-", "A"], max=3, parts=["A", "A_A", "B"], depth=3))]
    c.explore("NamesMC", [(n, mod + ".cfg", u, mod) for n, mod, u in items], replay=False)
    c.conform("NamesTrace", "namedrv", gen_names.histories("C17/%d" % c.seed, c.thorough))


CHECKS = {p: (lambda c, p=p: reg_check(c, p)) for p in REG}
CHECKS.update({p: (lambda c, p=p: val_check(c, p)) for p in VAL})
CHECKS["C17"] = names_check


def config_check(c):
    vlib.build("asan", ["lib", vlib.ROOT + "/build/asan/cfgdrv"])
    hs = c.explore("ConfigSetMC", [(k, "ConfigSetMC.cfg", gen_cfg.universe(c.thorough, k)) for k in ("values", "kids")])
    c.conform("ConfigSetTrace", "cfgdrv", hs + gen_cfg.histories("C25/%d" % c.seed, c.thorough))


CHECKS["C25"] = config_check


def singleton_check(c):
    for kind in ("asan", "tsan"):
        vlib.build(kind, ["lib", "plugins", vlib.ROOT + "/build/%s/thrdrv" % kind])
    hs = c.explore("SingletonMC", [(k, "SingletonMC.cfg", gen_sing.universe(k, c.thorough)) for k in ("plain", "chain", "temps", "mixed", "plugins")])
    c.theorem("SingletonLock", ["SingletonLock", "SingletonLock3"], refuted=["SingletonNoLock"])
    n = 10 if c.thorough else 1
    c.conform("SingletonTrace", "thrdrv", hs + gen_sing.histories("C20s/%d" % c.seed, 300 * n, [1]), label="sequential")
    c.conform("SingletonTrace", "thrdrv", gen_sing.histories("C20a/%d" % c.seed, 300 * n, [2, 2, 3, 3, 4]), label="threads")
    c.conform("SingletonTrace", "thrdrv", gen_sing.histories("C20t/%d" % c.seed, 300 * n, [2, 2, 3, 3, 4]), kind="tsan", label="races")


CHECKS["C20"] = singleton_check


RA = gen_rb.ALL
RUBY = [(RA, 200, 35, {}), (dict(RA, merge=4, addt=4, dup=1, same=3, minimal2=1), 100, 35, dict(similar=.5, maxnames=10, regs=3)),
        (dict(gen_rb.BASE, tlbload=8, meta=5, srcof=4, tlbtrip=4, typexml=2, enumget=3, resize=2, remove=1), 80, 25, dict(maxnames=20)),
        (dict(add=8, container=3, build=2, alias=5, idl=6, remove=.3, stdtypes=.02), 60, 30, dict(idl=.97, maxnames=18)),
        (dict(RA, stdtypes=2), 6, 12, dict(maxnames=100)),
        (dict(gen_rb.BASE, export=6, remove=.5, alias=2), 50, 40, dict(export=True, maxnames=22))]


def ruby_check(c):
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/rbreg"])
    hs = c.explore("RubyMC", [(n, "RubyMC.cfg", universes_rb.universe(n, c.thorough)) for n in ("ruby", "rubies", "rubyns")])
    for k, (w, cnt, ln, kw) in enumerate(RUBY):
        hs += vlib.split_resets(gen_rb.histories("C27/%d/%d" % (c.seed, k), w, cnt * (12 if c.thorough else 1), ln, **kw))
    c.conform("RubyTrace", "rbreg", hs)


CHECKS["C27"] = ruby_check

RV = gen_rbval.BASE
RBVAL = {
    "C28": ("things", [(RV, 260, 40, {}), (dict(new=4, set=14, get=6, mut=3, meth=3, find=3, ptr=2, simple=4, dup=1, copy=1, zero=.5), 120, 40, {}),
                       (dict(new=4, set=6, dump=5, size=2, load=6, wrap=4, cmp=5, copy=4, csv=4, eswap=2, cswap=2, dup=2, cast=3), 100, 40, {})]),
    "C29": ("elements", [(dict(RV, hold=10, push=8, erase=5, delif=3, clear=2, copy=4, load=3, slice=2, memcpy=2, simple=0, csv=0), 240, 50, {}),
                         (dict(RV, hold=8, set=10, mut=4, meth=4, get=6, dup=2, zero=2, eswap=2), 140, 50, {})]),
}


def rbval_check(c, prop):
    uni, mixes = RBVAL[prop]
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/rbval"])
    hs = c.explore("RubyValueMC", [(uni, "RubyValueMC.cfg", universes_rb.value_universe(uni, c.thorough))])
    for k, (w, cnt, ln, kw) in enumerate(mixes):
        hs += gen_rbval.histories("%s/%d/%d" % (prop, c.seed, k), w, cnt * (12 if c.thorough else 1), ln, **kw)
    c.conform("RubyValueTrace", "rbval", hs)


CHECKS.update({p: (lambda c, p=p: rbval_check(c, p)) for p in RBVAL})


def cxx_check(c):
    vlib.build("asan", ["lib", "plugins", vlib.ROOT + "/build/asan/rbreg"])
    us = [(n, "CxxMC.cfg", universes_cxx.universe(n, c.thorough)) for n in ("inherits", "refers", "opaque", "renamed")]
    hs = [[h[0], universes_cxx.history(h)] for h in c.explore("CxxMC", us) if len(h) == 7]
    c.conform("CxxTrace", "rbreg", hs + gen_cxx.histories("C30/%d" % c.seed, 9000 if c.thorough else 700))


CHECKS["C30"] = cxx_check


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":     # the histories depend on the order of sets: make it reproducible
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    prop = sys.argv[1]
    try:
        c = vlib.Check(prop)
        CHECKS[prop](c)
        sys.exit(c.finish())
    except vlib.MachineError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


if __name__ == "__main__":
    main()
