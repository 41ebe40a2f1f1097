"""C33: the option, JSON-pointer and JSON-schema modules against spec/Modules.tla."""
import tempfile, shutil
from vlib import *
import modgen

META = dict(technique="TLA+ model (Modules.tla): option parsing, pointer resolution and schema validation evaluated by TLC with invariants, random tables, documents and schemas replayed on the modules",
            note="Every kind of option argument, exact names, abbreviations, unique and ambiguous beginnings, attached and separate arguments, defaults, callbacks that stop; pointers with escapes, empty and "
                 "inherited names, array indices, pointers into files of several directories; every supported schema keyword, nested, on documents near the ones it was made for.")


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "Modules", "Modules", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    scratch = tempfile.mkdtemp(prefix="c33-")
    f = os.path.join(ctx.sub("d-" + name), "modules.js")
    src = open(os.path.join(ROOT, "drivers", "modules.js")).read()
    open(f, "w").write("const MODDIR = %s, SCRATCH = %s + '/' + H_now();\n" % (json.dumps(os.path.join(REPO, "module")), json.dumps(scratch)) + src)
    try: bad = run_cases(b, f, cases, ctx.sub("r-" + name), compare=lambda e, a, c: match(e, a))
    finally: shutil.rmtree(scratch, ignore_errors=True)
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def canon(v):
    """object properties in any order"""
    if isinstance(v, list) and len(v) == 2 and v[0] == "o" and isinstance(v[1], list) and all(isinstance(p, list) and len(p) == 2 and isinstance(p[0], list) for p in v[1]): return ["o", sorted(([p[0], canon(p[1])] for p in v[1]), key=str)]
    return [canon(x) for x in v] if isinstance(v, list) else v


def match(e, a): return json.dumps(canon(e)) == json.dumps(canon(a))


def run(ctx):
    b = build()
    g = modgen.Gen(ctx.rng)
    k = 1 if ctx.quick else 6
    for i in range(k):
        replay(ctx, b, "opt%d" % i, [g.optprog() for _ in range(700 if ctx.quick else 1500)], "option parser")
        replay(ctx, b, "ptr%d" % i, [g.ptrprog(25) for _ in range(200 if ctx.quick else 500)], "JSON pointers")
        replay(ctx, b, "sch%d" % i, [g.schemaprog(8) for _ in range(900 if ctx.quick else 2000)], "JSON schema")
