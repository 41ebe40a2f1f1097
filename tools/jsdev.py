"""development aid: run a program on the specification, on node and on the engine"""
import sys, os, json, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import vlib, jsast

NODE_PRE = """
'use strict';
const fs=require('fs'), vm=require('vm');
globalThis.H_args=[process.argv[2]];
"""


def node_run(cases, work):
    """run the cases with node instead of the engine"""
    f = os.path.join(work, "n.ndjson")
    open(f, "w").write("".join(json.dumps(c) + "\n" for c in cases))
    drv = open(os.path.join(vlib.DRIVERS, "jscore.js")).read()
    drv = drv.replace("function runTest(t) {", "async function runTest(t) {").replace("H_evalScript(t.s);", "vm.runInThisContext(t.s);")
    drv = drv.replace("    H_solveJobs();\n    J_log", "    await new Promise(r=>setImmediate(r));\n    J_log")
    js = "const fs=require('fs'), vm=require('vm');\n" + drv + """
process.on('unhandledRejection', ()=>{});
(async()=>{ for (const line of fs.readFileSync(process.argv[2],'utf8').split('\\n')) { if(!line) continue; console.log(JSON.stringify(await runTest(JSON.parse(line)))); } })();
"""
    jf = os.path.join(work, "n.js")
    open(jf, "w").write(js)
    p = subprocess.run(["node", jf, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        print(p.stderr.decode()[-2000:])
    return [json.loads(l) for l in p.stdout.decode().split("\n") if l]


def spec_run(progs, work, maxsteps=3000, timeout=800):
    inf = os.path.join(work, "p.ndjson")
    open(inf, "w").write("".join(json.dumps(jsast.parse_program(s, st)) + "\n" for s, st in progs))
    r = vlib.tlc("JSMachine", "JSMachine", os.path.join(work, "tlc"), env={"IN": inf, "MAXSTEPS": maxsteps}, timeout=timeout)
    out = {x["k"]: x for x in vlib.emitted(r)}
    if r.rc:
        import re
        L = r.log.split("\n")
        for i, l in enumerate(L):
            if l.startswith("Error:") or "ttempted" in l or "pi = " in l and i > len(L) - 60 or "In computing" in l:
                print(l[:600], (L[i + 1] if i + 1 < len(L) else "")[:300])
        nest = [l for l in L if re.match(r"\d+\. Line", l)]
        print("\n".join(nest[-12:]))
    return [out.get(i + 1) for i in range(len(progs))], r


def rat_run(cases, work, build="plain"):
    """the engine on every case; a crash is recorded for its case, and the rest still runs"""
    b = vlib.build(build)
    full = os.path.join(work, "d.js")
    open(full, "w").write(open(os.path.join(vlib.DRIVERS, "lib.js")).read() + "\n" + open(os.path.join(vlib.DRIVERS, "jscore.js")).read() + "\nL_main();\n")
    out, first, status, errs = [], 0, "ok", ""
    while first < len(cases):
        res, st, err = vlib._run_batch(b, full, cases[first:], work, "x", int(os.environ.get("TMO", "100")), (), None, "rjsh")
        got = []
        while len(got) in res:
            got.append(res[len(got)])
        out += got
        first += len(got)
        if first < len(cases):
            status, errs = st, errs + "[%d] %s %s\n" % (first, st, err[:200])
            out.append(["CRASH " + st + " " + err[:150]])
            first += 1
    return out, status, errs


if __name__ == "__main__":
    # program files: programs separated by lines of ==== ; first line "strict" makes one strict
    work = tempfile.mkdtemp()
    progs = []
    for chunk in open(sys.argv[1]).read().split("====\n"):
        st = chunk.startswith("strict\n")
        progs.append((chunk[7:] if st else chunk, st))
    sp, r = spec_run(progs, work)
    cases = [{"s": jsast.wrap(s, st)} for s, st in progs]
    nd = node_run(cases, work)
    rt, st, err = rat_run(cases, work)
    print(r.generated, "steps", round(r.wall, 1), "s; rat:", st, err[:300])
    for i, (s, _) in enumerate(progs):
        a = sp[i] and sp[i]["r"]
        b = nd[i] if i < len(nd) else None
        ok = a == b == rt[i]
        print("-----", i, "OK" if ok else "DIFF", sp[i] and sp[i]["n"])
        if not ok or "-v" in sys.argv:
            print(s.strip())
            print(" spec", a)
            print(" node", b)
            print(" rat ", rt[i])
