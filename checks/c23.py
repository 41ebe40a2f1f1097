"""C23: BigInt against spec/BigOps.tla."""
from vlib import *
import numgen

META = dict(technique="TLA+ model (BigOps.tla over Big.tla): exact arithmetic evaluated by TLC with algebraic laws as invariants, replayed on the engine",
            note="All operators in several syntactic forms on operands up to ~600 bits around limb and word boundaries, both signs; "
                 "conversions from and to text in radices 2-36, to and from Number.")


def match(exp, act, case):
    return isinstance(act, list) and len(exp) == len(act) and all(e == ["any"] or canon(e) == canon(a) for e, a in zip(exp, act))


def replay(ctx, b, name, spec, progs, what):
    exp = eval_programs(ctx, name, spec, spec, progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "number.js", cases, ctx.sub("r-" + name), compare=match)
    ctx.note(part=what, programs=len(progs), ops=sum(len(p["ops"]) for p in progs), undecided=sum(r == ["any"] for e in exp for r in e))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    for i in range(1 if ctx.quick else 10):
        replay(ctx, b, "gen%d" % i, "BigOps", [numgen.prog(ctx.rng, True, 20) for _ in range(900 if ctx.quick else 1500)], "random operands")
