"""development aid: cross-check the specification with node (and the engine) on generated programs"""
import sys, os, random, tempfile, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import vlib, jsast, jsgen, jsdev
gen, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "1"
rng = random.Random(gen + seed)
work = tempfile.mkdtemp()
progs = [getattr(jsgen, gen)(rng) for _ in range(n)]
for i, (s, st) in enumerate(progs):
    try:
        jsast.parse_program(s, st)
    except Exception as e:
        print("PARSE", e, "\n", s)
        sys.exit(1)
t = time.time()
sp, r = jsdev.spec_run(progs, work, timeout=3000)
print("TLC %.1fs, %d steps" % (time.time() - t, r.generated), "toolong:", sum(1 for x in sp if x and x["r"] == ["toolong"]))
cases = [jsast.inp(s, st) for s, st in progs]
skip = {i for i in range(len(progs)) if sp[i] and sp[i]["r"] == ["toolong"]}
nd = jsdev.node_run([{"s": ""} if i in skip else c for i, c in enumerate(cases)], work)
rt, st_, err = jsdev.rat_run([{"s": ""} if i in skip else c for i, c in enumerate(cases)], work)
print("rat", st_, err[:300])
bad = 0
get = lambda l, i: l[i] if i < len(l) else None
groups = {"SPEC WRONG": [], "ENGINE WRONG": [], "NODE DIFFERS": [], "ALL DIFFER": []}
for i in range(len(progs)):
    if not sp[i] or sp[i]["r"] == ["toolong"]:
        continue
    a, n_, r_ = sp[i]["r"], get(nd, i), get(rt, i)
    if a == n_ == r_:
        continue
    groups["SPEC WRONG" if n_ == r_ else "ENGINE WRONG" if a == n_ else "NODE DIFFERS" if a == r_ else "ALL DIFFER"].append(i)
show = os.environ.get("G", "SPEC WRONG,ENGINE WRONG,ALL DIFFER").split(",")
for g, k in groups.items():
    print(g, len(k), k[:10])
    if g not in show:
        continue
    for i in sorted(k, key=lambda i: len(progs[i][0]))[:int(os.environ.get("SHOW", "2"))]:
        print("-----", i, "strict" if progs[i][1] else "")
        print(progs[i][0])
        a = sp[i]["r"]
        for nm, b in (("node", get(nd, i)), ("rat", get(rt, i))):
            for j in range(max(len(a), len(b or []))):
                if j >= len(a) or not b or j >= len(b) or a[j] != b[j]:
                    print("   spec/%s at %d:" % (nm, j), a[j:j + 2], (b or [])[j:j + 2])
                    break
shutil.rmtree(work)
