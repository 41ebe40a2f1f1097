"""C34: symbols, the registry and template objects against spec/SymTpl.tla."""
from vlib import *
import symgen

META = dict(technique="TLA+ model (SymTpl.tla): symbol registry, template cooking and site identity evaluated by TLC with invariants, histories over three realms replayed on the engine",
            note="Symbol(), Symbol.for, keyFor, descriptions and well-known symbols from three realms; symbols as keys; tagged templates in seven kinds of function bodies, from "
                 "scripts, eval and Function, several closures of one function, equal texts at different sites, garbage collections in between; every kind of escape, valid or not, with and without a tag.")


def replay(ctx, b, name, progs, what, opts=()):
    exp = eval_programs(ctx, name, "SymTpl", "SymTpl", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "symtpl.js", cases, ctx.sub("r-" + name), opts=opts)
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    g = symgen.Gen(ctx.rng)
    # every piece alone, with and without a tag
    sing = [{"c": 0, "ops": [{"n": "fun", "realm": 0, "shape": 0, "factory": 0, "sites": [[p]]}, {"n": "call", "f": 1, "k": 1, "c": 0},
                             {"n": "plain", "realm": 0, "site": [p]}]} for p in symgen.GOOD + symgen.BAD if p != symgen.C("$")]
    replay(ctx, b, "pieces", sing, "every escape, alone")
    for i in range(1 if ctx.quick else 10):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(20, 70)) for _ in range(1200 if ctx.quick else 2500)], "random histories")
