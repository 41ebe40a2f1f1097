"""C30: strings against spec/StrOps.tla."""
from vlib import *
import strgen

META = dict(technique="TLA+ model (StrOps.tla): enumerated calls and random histories evaluated by TLC, replayed on the engine",
            note="Strings as code-unit sequences built by every operation in turn (concatenation, slices, escapes, lone surrogates), each "
                 "method on all short strings with all small positions and on random histories; strings as property and map keys.")


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "StrOps", "StrOps", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "string.js", cases, ctx.sub("r-" + name))
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    replay(ctx, b, "family", strgen.family(ctx.rng, 4 if ctx.quick else 12), "enumerated calls")
    g = strgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 10):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(10, 50)) for _ in range(900 if ctx.quick else 2500)], "random histories")
