"""C32: JSON against spec/JsonOps.tla."""
from vlib import *
import jsongen

META = dict(technique="TLA+ model (JsonOps.tla): the JSON grammar, reviver walk and serializer evaluated by TLC with invariants, random histories replayed on the engine",
            note="Valid and mutated texts, duplicate and integer-like keys, lone surrogates; object graphs with accessors, wrappers, proxies, prototypes, cycles, holes; "
                 "toJSON, getters, replacers and revivers that log their holder, key and value and change what is being visited; replacer lists; every kind of gap.")


def match(e, a):
    if e == ["any"]: return True
    if isinstance(e, list) and isinstance(a, list): return len(e) == len(a) and all(match(x, y) for x, y in zip(e, a))
    return type(e) is type(a) and e == a


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "JsonOps", "JsonOps", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "json.js", cases, ctx.sub("r-" + name), compare=lambda e, a, c: match(e, a))
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    g = jsongen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 10):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(10, 50)) for _ in range(800 if ctx.quick else 2500)], "random histories")
