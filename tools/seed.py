"""Tries planted bugs (not used by any check): seed.py [-n] ID...
Applies seeded/ID/patch.diff to /repo, builds, runs the tests and the demo and (without -n) the check of its property."""
import json, os, re, subprocess, sys, time
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(i, check, others):
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if sh("git status --short", cwd=R).stdout.strip():
        sys.exit("/repo is not clean")
    r = []
    demo = lambda: sh(["bash", d + "/demo.sh"], cwd=R, timeout=300)
    p = sh("git apply %s/patch.diff" % d, cwd=R)
    if p.returncode:
        return "does not apply: " + p.stdout
    try:
        p = sh("bash /opt/vp/build.sh")
        if p.returncode:
            return "does not build: " + p.stdout[-1500:]
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        t = json.load(open("/tmp/seed.json"))
        r.append("tests %d/%d" % (len(t["passed"]), len(t["passed"]) + len(t["failed"])))
        if t["failed"]:
            r.append("FAILED %s" % t["failed"][:4])
        p = demo()
        r.append("demo with patch: %d%s" % (p.returncode, "" if p.returncode else " (BAD)"))
        if "-v" in sys.argv:
            print(p.stdout[-1500:])
        for prop in ([meta["property"]] if check else []) + others:
            t0 = time.time()
            p = sh(["python3", "/verif/tools/check.py", prop], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            r.append("%s: %s (%.0f s)" % (prop, "caught" if p.returncode == 1 and "VIOLATION property=%s" % prop in p.stdout else "MISSED rc=%d" % p.returncode, time.time() - t0))
            if p.returncode not in (0, 1) or "-v" in sys.argv:
                print(p.stdout[-3000:])
    finally:
        sh("git checkout -- .", cwd=R)
    p = sh("bash /opt/vp/build.sh")
    p = demo()
    r.append("demo without: %d%s" % (p.returncode, "" if p.returncode == 0 else " (BAD) " + p.stdout[-800:]))
    return ", ".join(r)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-") and not a.startswith("+")]
    for i in ids or sorted(os.listdir("/verif/seeded")):
        print(i + ": " + one(i, "-n" not in sys.argv, [a[1:] for a in sys.argv if a.startswith("+")]), flush=True)
