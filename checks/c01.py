"""C01: collections are invisible, teardown releases everything: histories of every specification replayed with collections forced."""
import importlib
from jscheck import *
import weakgen

META = dict(technique="TLA+ models (JSMachine, Weak and the component models): none has a notion of collection; TLC-computed outcomes replayed with collections forced at allocations, with memory and leak checking",
            note="Programs and histories of twenty specifications, replayed with a collection at every allocation (small ones), at random allocations, and under the address sanitizer; bytes still allocated after the runtime "
                 "is freed are an error.")

JS = [("c03", 2), ("c04", 3), ("c05", 3), ("c06", 3), ("c07", 2), ("c08", 2), ("c09", 2), ("c17", 1), ("c21", 3), ("c26", 2), ("c27", 1), ("c35", 1)]
OTHERS = ["c10", "c13", "c18", "c22", "c23", "c24", "c29", "c30", "c31", "c32", "c33", "c34", "c36"]


class Sub:
    """the context a component's check runs in: few histories, forced collections"""
    def __init__(self, ctx, name): self.ctx, self.name, self.quick, self.rng = ctx, name, True, ctx.rng
    def sub(self, n): return self.ctx.sub(self.name + "-" + n)
    def note(self, **kw): self.ctx.note(component=self.name, **kw)
    def add_tlc(self, name, r, **kw): self.ctx.add_tlc(self.name + " " + name, r, **kw)
    def ran(self, cases, steps=None): self.ctx.ran(cases, steps)
    def fails(self, bad, what): self.ctx.fails(bad, "with collections: %s %s" % (self.name, what))


def modes(ctx):
    """(flavour, options): every program runs in each"""
    s = str(ctx.rng.randint(0, 9999))
    return [("plain", ("-g", "11", "-s", s)), ("asan", ("-g", "29", "-s", s))]


def component(ctx, name, n):
    m = importlib.import_module(name)
    real_eval, real_run = eval_programs, run_cases
    state = {"left": 3}

    def ev(c, nm, spec, cfg, progs, *a, **k):
        if len(progs) > n: progs[:] = ctx.rng.sample(progs, n)
        return real_eval(c, nm, spec, cfg, progs, *a, **k)

    def rc(b, driver, cases, workdir, opts=(), **k):
        bad = []
        k["timeout"] = 250
        for fl, o in modes(ctx): bad += real_run(build(fl), driver, cases, workdir + fl, opts=o, chunk=max(1, len(cases) // 16), alone=120, **{x: y for x, y in k.items() if x not in ("chunk", "jobs")})
        return bad
    saved = {k: getattr(m, k) for k in ("eval_programs", "run_cases", "graph", "threads", "family") if hasattr(m, k)}
    m.eval_programs, m.run_cases = ev, rc
    for k in ("graph", "threads"):
        if hasattr(m, k): setattr(m, k, lambda *a, **kw: None)
    try: m.run(Sub(ctx, name))
    finally:
        for k, v in saved.items(): setattr(m, k, v)


def programs_part(ctx, n, small):
    progs = []
    for g, w in JS: progs += programs(ctx.rng, [(g, 1)], n * w)
    cases = evaluate(ctx, "js", progs)
    for fl, o in modes(ctx):
        bad = run_cases(build(fl), "jscore.js", cases, ctx.sub("js-" + fl), opts=o, timeout=250, alone=120, chunk=max(1, len(cases) // 32))
        ctx.note(part="programs", compared=len(cases), flavour=fl, opts=list(o))
        ctx.ran(cases)
        ctx.fails(bad, "program with collections")
    few = ctx.rng.sample(cases, min(len(cases), small))
    bad = run_cases(build("asan"), "jscore.js", few, ctx.sub("js-every"), opts=("-g", "1"), timeout=250, alone=120, chunk=max(1, len(few) // 32))
    ctx.note(part="programs, a collection at every allocation", compared=len(few))
    ctx.ran(few)
    ctx.fails(bad, "program with a collection at every allocation")


def run(ctx):
    build(), build("asan")
    programs_part(ctx, 10 if ctx.quick else 120, 64 if ctx.quick else 400)
    for c in OTHERS:
        component(ctx, c, 30 if ctx.quick else 300)
        if os.environ.get("VERIF_TIMES"): print(c, time.time() - ctx.t0, flush=True)
