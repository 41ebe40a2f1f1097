"""C22: regular expressions against spec/Regex.tla."""
from vlib import *
import regexgen

META = dict(technique="TLA+ model (Regex.tla): the backtracking semantics and the lastIndex protocol evaluated by TLC with invariants on generated patterns, every result replayed on the engine",
            note="Random pattern trees over every construct (classes, ranges, escapes, greedy and lazy counted repetition, captures, named captures, references, look-ahead and look-behind, anchors, word "
                 "boundaries, the flags dgimsuy), rendered in several spellings as literals and through the constructor; subjects sampled from the pattern; exec, test, search, match, matchAll, replace with "
                 "templates and functions, split, with lastIndex before and after; garbage collection stress for a part.")


def replay(ctx, b, name, progs, what, opts=()):
    exp = eval_programs(ctx, name, "Regex", "Regex", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "regex.js", cases, ctx.sub("r-" + name), opts=opts)
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def run(ctx):
    b = build()
    g = regexgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "h%d" % i, [g.prog(4, 8) for _ in range(1500 if ctx.quick else 3000)], "random patterns")
