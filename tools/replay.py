import json, sys, re
import vlib
d = sys.argv[1]
info = json.load(open(d + "/info.json"))
kind = info.get("build", "asan")
vlib.build(kind, ["lib", "plugins", "%s/build/%s/%s" % (vlib.ROOT, kind, info["driver"])])
ops = [json.loads(l) for l in open(d + "/ops.jsonl")]
j = vlib.Job(info["module"], info["driver"], ops, d + "-replay", kind)
for _try in range(50 if info["driver"] in vlib.UNREPEATABLE else 1):     # schedules differ from run to run
    j.drive(); j.validate(explain=True)
    if j.crash or j.reject is not None:
        break
if j.crash: print(j.crash)
if j.reject is not None:
    print("event %d rejected: %s" % (j.reject, json.dumps(ops[j.reject])))
    for m in re.findall(r'<<\s*"MISMATCH".*?(?=\n(?:<<|[A-Z]))', j.log, re.S): print(re.sub(r"\s+", " ", m))
print("violated" if (j.crash or j.reject is not None) else "held")
sys.exit(1 if (j.crash or j.reject is not None) else 0)
