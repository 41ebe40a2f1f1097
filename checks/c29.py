"""C29: realms and runtimes are isolated, against spec/Realms.tla."""
from vlib import *
import realmgen, jsongen

META = dict(technique="TLA+ model (Realms.tla): the realm of every created object, error and prototype and the state of each realm evaluated by TLC with isolation properties, replayed on the engine",
            note="Everything the tables of the specification list (language constructs, errors of code and of built-ins, results of built-ins on values of another realm) through ten ways of calling, "
                 "every constructor with newTargets of other realms (bound, proxied, revoked), globals and patched intrinsics of three realms; runtimes in six threads replaying the specification's histories at once.")
THREADS = """
function L_main() {
    if (globalThis.AGENT_DATA) {
        for (let [n, line] of globalThis.AGENT_DATA) {
            let t = JSON.parse(line), r;
            if (typeof runTest === "function") r = runTest(t);
            else { let s = newSUT(t.c); r = t.ops.map(o => step(s, o)); }
            H_out("@@R " + n + " " + JSON.stringify(r));
        }
        return;
    }
    let src = File.loadString(H_self), SAB = new SharedArrayBuffer(8), parts = [[], [], [], [], [], []];
    File.loadString(H_args[0]).split("\\n").forEach((l, i) => { if (l) parts[i % 6].push([i, l]); });
    for (let p of parts) H_agentStart("globalThis.AGENT_DATA = " + JSON.stringify(p) + ";\\n" + src, SAB);
    H_agentJoin();
    H_flush();
}
"""


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "Realms", "Realms", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "realms.js", cases, ctx.sub("r-" + name))
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def threads(ctx, b, name, spec, driver, gen, n, match=None):
    """the histories of another specification, replayed by six runtimes of one process at once"""
    progs = [gen.prog(ctx.rng.randint(20, 40)) for _ in range(n)]
    exp = eval_programs(ctx, "t-" + name, spec, spec, progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    f = os.path.join(ctx.sub("t-" + name), "threads-" + driver)
    open(f, "w").write(open(os.path.join(ROOT, "drivers", driver)).read() + THREADS)
    bad = run_cases(b, f, cases, ctx.sub("rt-" + name), chunk=max(1, n // 4), jobs=2, compare=match and (lambda e, a, c: match(e, a)))
    ctx.note(part="six runtimes at once: " + spec, histories=n)
    ctx.ran(cases)
    ctx.fails(bad, "runtimes in threads: " + spec)


def anym(e, a):
    if e == ["any"]: return True
    if isinstance(e, list) and isinstance(a, list): return len(e) == len(a) and all(anym(x, y) for x, y in zip(e, a))
    return type(e) is type(a) and e == a


def run(ctx):
    b = build()
    replay(ctx, b, "all", realmgen.everything(), "every table entry, every way")
    g = realmgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(20, 60)) for _ in range(300 if ctx.quick else 1500)], "random histories")
    n = 240 if ctx.quick else 2400
    threads(ctx, b, "json", "JsonOps", "json.js", jsongen.Gen(ctx.rng), n, anym)
