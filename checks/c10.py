"""C10: global declarations against spec/GlobalEnv.tla."""
from vlib import *
import globgen

META = dict(technique="TLA+ model (GlobalEnv.tla): histories of scripts, evals and changes to the global object evaluated by TLC with invariants and an atomicity property, replayed on the engine",
            note="Every sequence of two operations on one name (of three in thorough, sampled in quick), and random histories over names that are free, inherited, "
                 "restricted or configurable built-ins; scripts that abort half way; direct, indirect and strict evals; deletion through names and through the object.")


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "GlobalEnv", "GlobalEnv", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "globals.js", cases, ctx.sub("r-" + name))
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    replay(ctx, b, "pairs", globgen.family(2), "all pairs of operations on one name")
    replay(ctx, b, "triples", globgen.family(3, ctx.rng, 800 if ctx.quick else 30000), "triples of operations on one name")
    g = globgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(5, 25)) for _ in range(700 if ctx.quick else 2500)], "random histories")
