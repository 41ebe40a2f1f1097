"""C13: array built-ins against spec/ArrayOps.tla."""
from vlib import *
import arrgen

META = dict(technique="TLA+ model (ArrayOps.tla over Objects.tla): enumerated calls and random histories evaluated by TLC, replayed on the engine",
            note="Each method's reads, writes, deletions and callback calls in order, seen through proxies and accessors, on arrays, "
                 "array-likes and proxies, with arrays changed from callbacks and argument conversions. Lengths up to 32.")


def cut(progs, exp):
    """histories end where the model gives no answer"""
    for p, e in zip(progs, exp):
        k = next((i for i, r in enumerate(e) if r["v"] == ["throw", "skip"]), len(e))
        if k:
            yield Case({"c": p["c"], "ops": p["ops"][:k]}, e[:k])


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "ArrayOps", "ArrayOps", progs)
    cases = list(cut(progs, exp))
    bad = run_cases(b, "array.js", cases, ctx.sub("r-" + name))
    ctx.note(part=what, histories=len(progs), compared=len(cases), ops=sum(len(c.expect) for c in cases))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    fam = arrgen.family(2 if ctx.quick else 4)
    if not ctx.quick:
        fam = ctx.rng.sample(fam, min(len(fam), 12000))
    replay(ctx, b, "family", fam, "enumerated calls")
    g = arrgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(3, 12)) for _ in range(2500 if ctx.quick else 4000)], "random histories")
