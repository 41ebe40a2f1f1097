#!/usr/bin/env python3
"""tri.py DRIVER REPLAY...: development aid; shows where specification, engine and node differ on a replay (never used by the checks)."""
import json, sys, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
drv = sys.argv[1]
sys.path.insert(0, V + "/lib")
from vlib import canon
inc = lambda t: re.sub(r"^/\*@include (\S+)\*/$", lambda m: open(V + "/drivers/" + m.group(1)).read(), t, flags=8)
src = open(V + "/drivers/lib.js").read() + inc(open(V + "/drivers/" + drv).read()) + "\nL_main();\n"
shim = """var File = {loadString: f => require('fs').readFileSync(f, 'utf8')}, H_args = [process.argv[2]], H_out = s => console.log(s), H_flush = () => 0,
 H_gc = () => global.gc && gc(), H_solveJobs = () => 0, print = s => process.stdout.write(String(s)), H_evalScript = s => (0,eval)(s), H_detach = b => structuredClone(b, {transfer: [b]});\n"""
for rp in sys.argv[2:]:
    d = json.load(open(rp))
    TZ = "UTC0"
    if isinstance(d["input"], dict) and isinstance(d["input"].get("c"), dict) and "off" in d["input"]["c"]:
        f = d["input"]["c"]["off"]; TZ = "XXX%s%d:%02d" % ("-" if f > 0 else "", abs(f) // 60, abs(f) % 60)
    open("/tmp/rr.js", "w").write(src)
    open("/tmp/rr.cjs", "w").write('"use strict";\n' + shim + src)
    open("/tmp/rr.nd", "w").write(json.dumps(d["input"]) + "\n")
    res = []
    for cmd in ([V + "/build/plain/rjsh", "/tmp/rr.js", "/tmp/rr.nd"], ["node", "/tmp/rr.cjs", "/tmp/rr.nd"]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace", text=True, timeout=60,
                           env=dict(os.environ, RJS_LOG_LEVEL="error", TZ=TZ))
        m = re.search(r"@@R 0 (.*)", p.stdout)
        try:
            res.append(json.loads(m.group(1)) if m else "rc %d %s %s" % (p.returncode, p.stdout[-300:], p.stderr[-600:]))
        except ValueError:
            res.append(m.group(1))
    exp = d.get("expected", d.get("expect"))
    rat, node = res
    print("==", os.path.basename(rp), "c:", json.dumps(d["input"].get("c", ""))[:600] if isinstance(d["input"], dict) else "")
    if not isinstance(rat, list) or not isinstance(exp, list):
        print(" exp", str(exp)[:400], "\n rat", str(rat)[:400], "\n node", str(node)[:400]); continue
    for i in range(len(exp)):
        g = lambda r: canon(r[i]) if isinstance(r, list) and i < len(r) else str(r)[:500]
        if exp[i] == ["any"] or exp[i] and exp[i][0] == ["any"]: continue
        a = canon(exp[i])
        if g(rat) != a or (isinstance(node, list) and g(node) != a):
            who = "ENGINE differs" if g(node) == a else "SPEC differs from both" if g(rat) == g(node) else "node = engine? no; all differ" if g(rat) != a else "node differs from spec = engine"
            ops = d["input"].get("ops", d["input"].get("tests", [])) if isinstance(d["input"], dict) else d["input"]
            print(" step", i, who, json.dumps(ops[i] if i < len(ops) else "")[:500])
            print("   spec", json.dumps(exp[i])[:500])
            print("   rat ", json.dumps(rat[i] if i < len(rat) else None)[:500])
            if isinstance(node, list): print("   node", json.dumps(node[i] if isinstance(node, list) and i < len(node) else str(node))[:500])
            if g(rat) != a: break
