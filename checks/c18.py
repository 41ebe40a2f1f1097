"""C18: buffers, typed arrays and DataViews against spec/BinOps.tla."""
from vlib import *
import bingen

META = dict(technique="TLA+ model (BinOps.tla over Big.tla): byte-exact views evaluated by TLC with invariants, random histories replayed on the engine",
            note="All element kinds, exact integer, clamped and IEEE float conversions (rounding, subnormals), overlapping views of up to 5 buffers, every "
                 "index form, constructors and bulk methods, SharedArrayBuffers, detachment at any point (also from conversions of arguments); all bytes compared after every step.")


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "BinOps", "BinOps", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "binary.js", cases, ctx.sub("r-" + name))
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs), skipped=sum(r[0] == ["skip"] for e in exp for r in e))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    g = bingen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 10):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(10, 50)) for _ in range(900 if ctx.quick else 2500)], "random histories")
