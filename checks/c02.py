"""C02: weak references, weak collections and finalization against spec/Weak.tla."""
from vlib import *
import weakgen

META = dict(technique="TLA+ model (Weak.tla): exhaustive graphs of small heaps with weak maps, references and registrations, and TLC-evaluated histories, with exact liveness as invariant, replayed on the engine",
            note="Every operation is followed by collections until no callback is called. Objects keep their references in 18 ways (properties, elements, closures, maps, private fields, proxies, generators, "
                 "bound functions, accessors, arguments, prototypes, iterators ...). Collections at random allocations for a part, the address sanitizer for a part.")


def replay(ctx, b, name, cases, what, opts=()):
    bad = run_cases(b, "weak.js", cases, ctx.sub("r-" + name), opts=opts, timeout=120)
    if os.environ.get("VERIF_TIMES"): print(name, time.time() - ctx.t0, flush=True)
    ctx.ran(cases)
    ctx.fails(bad, what)


def graph(ctx, b, g, pre, n, limit):
    r = tlc_ok("Weak", "Weak_" + g, ctx.sub("g" + g))
    gr = load_graph(r)
    ctx.add_tlc("graph " + g, r, graph_nodes=len(gr.ids), graph_edges=gr.nedges)
    walks, rem = cover_walks(gr, n, ctx.rng)
    if len(walks) > limit: walks = ctx.rng.sample(walks, limit)
    cases = [Case({"c": 2, "ops": pre + [x[0] for x in w]}, [[["i", 1], []]] * len(pre) + [x[1] for x in w]) for w in walks]
    ctx.note(part="graph " + g, walks=len(walks), edges_left=rem)
    replay(ctx, b, "g" + g, cases, "graph replay")


def histories(ctx, b, name, n, l, opts=()):
    g = weakgen.Gen(ctx.rng)
    progs = [g.prog(ctx.rng.randint(l // 2, l)) for _ in range(n)]
    exp = eval_programs(ctx, name, "Weak", "Weak", progs)
    ctx.note(part="histories", histories=n, ops=sum(len(p["ops"]) for p in progs), opts=list(opts))
    replay(ctx, b, name, [Case(p, e) for p, e in zip(progs, exp)], "histories", opts)


def run(ctx):
    b = build()
    graph(ctx, b, "S", [{"n": "new", "kind": "m", "i": 1}], 60, 3000 if ctx.quick else 30000)
    graph(ctx, b, "F", [{"n": "new", "kind": "f", "i": 0}], 60, 3000 if ctx.quick else 30000)
    for i in range(1 if ctx.quick else 6):
        histories(ctx, b, "h%d" % i, 600 if ctx.quick else 1500, 60)
        histories(ctx, b, "s%d" % i, 60 if ctx.quick else 200, 40, ("-g", "7", "-s", str(ctx.rng.randint(0, 9999))))
    histories(ctx, build("asan"), "a", 60 if ctx.quick else 400, 40)
