"""C11: property descriptors, integrity levels and prototypes against spec/Objects.tla."""
from vlib import *
import objgen

META = dict(technique="TLA+ model (Objects.tla): exhaustive descriptor graph + TLC-evaluated random histories replayed on the engine",
            note="Every transition of the one-property graph (all partial descriptors from all property states) replayed on many "
                 "kinds of host object; random histories on prototype chains.")


def run_kind(ctx, b, kind, n, ln):
    g = objgen.Gen(ctx.rng, kind)
    progs = [g.prog(ctx.rng.randint(ln // 3, ln)) for _ in range(n)]
    exp = eval_programs(ctx, "e-" + kind, "Objects", "Objects_E", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_cases(b, "objects.js", cases, ctx.sub("re-" + kind))
    ctx.ran(cases)
    ctx.fails(bad, "random history, " + kind)


def graph(ctx, b, cfg, hosts, kind):
    r = tlc_ok("ObjGraph", cfg, ctx.sub("g-" + cfg))
    g = load_graph(r)
    ctx.add_tlc("graph " + cfg, r, graph_nodes=len(g.ids), graph_edges=g.nedges)
    for h in hosts:
        walks, rem = cover_walks(g, 60, ctx.rng)
        cases = [Case({"c": [[kind, 0, h]], "ops": [x[0] for x in w]}, [x[1] for x in w]) for w in walks]
        bad = run_cases(b, "objects.js", cases, ctx.sub("r-%s-%s" % (cfg, h)))
        ctx.note(part="replay %s on %s" % (cfg, h), walks=len(walks), edges_left=rem)
        ctx.ran(cases)
        ctx.fails(bad, "graph replay, " + h)


def run(ctx):
    b = build()
    graph(ctx, b, "ObjGraph_P", ctx.rng.sample(objgen.HOSTS, 4) if ctx.quick else objgen.HOSTS, "obj")
    run_kind(ctx, b, "obj", *((500, 60) if ctx.quick else (6000, 120)))
