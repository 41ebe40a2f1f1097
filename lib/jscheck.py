"""Checks over the JSCore specification: TLC executes generated and hand-written programs on
spec/JSMachine.tla (its invariants checked in every state); the engine runs the same source and
must make the same observations in the same order."""
import os
from vlib import *
import jsast, jsgen


def corpus(name):
    """corpus/<name>.js: programs separated by lines of ====; first line 'strict' for strict mode"""
    f = os.path.join(ROOT, "corpus", name + ".js")
    if not os.path.exists(f):
        return []
    out = []
    for p in re.split(r"^====.*$", open(f).read(), flags=re.M):
        p = p.strip("\n")
        if not p.strip():
            continue
        strict = p.startswith("strict\n")
        out.append((p[7:] if strict else p, strict))
    return out


def programs(rng, gens, n):
    """n programs from the weighted generators [(name, weight)]"""
    tot = sum(w for _, w in gens)
    out = []
    for g, w in gens:
        f = getattr(jsgen, g)
        out += [f(rng) for _ in range(max(1, round(n * w / tot)))]
    return out


def inp(s, st):
    return jsast.inp(s, st)


def evaluate(ctx, name, progs, maxsteps=3000):
    """[(source, strict)] -> cases with the specification's observations; too long ones are dropped"""
    trees = []
    for s, st in progs:
        try:
            trees.append(jsast.parse_program(s, st))
        except Exception as e:
            raise CheckError("program not understood (%s):\n%s" % (e, s))
    exp = eval_programs(ctx, name, "JSMachine", "JSMachine", trees, env={"MAXSTEPS": maxsteps}, tlc_kw={"timeout": 700})
    return [Case(inp(s, st), e, meta={"program": s, "strict": st})
            for (s, st), e in zip(progs, exp) if e != ["toolong"]]


def js_check(ctx, gens, quick=2400, thorough=40000, flavor="plain", corp=None, opts=(), batch=2000, fixed=()):
    b = build(flavor)
    progs = corpus(corp or ctx.prop.lower())
    if progs:
        cases = evaluate(ctx, "corpus", progs, 20000)
        bad = run_cases(b, "jscore.js", cases, ctx.sub("corpus-run"), opts=opts, timeout=60)
        ctx.note(part="corpus", programs=len(progs), compared=len(cases))
        ctx.ran(cases)
        ctx.fails(bad, "hand-written program")
    if fixed:
        cases = evaluate(ctx, "family", list(fixed), 20000)
        bad = run_cases(b, "jscore.js", cases, ctx.sub("family-run"), opts=opts, timeout=60)
        ctx.note(part="enumerated family", programs=len(fixed), compared=len(cases))
        ctx.ran(cases)
        ctx.fails(bad, "enumerated program")
    n = quick if ctx.quick else thorough
    done = 0
    while done < n:
        if not ctx.quick and time.time() - ctx.t0 > 560:
            break
        k = min(batch, n - done)
        progs = programs(ctx.rng, gens, k)
        cases = evaluate(ctx, "gen%d" % done, progs)
        bad = run_cases(b, "jscore.js", cases, ctx.sub("run%d" % done), opts=opts, timeout=60)
        ctx.note(part="generated", generators=[g for g, _ in gens], programs=len(progs), compared=len(cases))
        ctx.ran(cases)
        ctx.fails(bad, "generated program")
        done += k


def meta(note):
    return dict(technique="TLA+ abstract machine (JSCore.tla) executed by TLC on each program; observation logs compared with the engine",
                note=note)
