"""C24: files and directories against spec/Files.tla."""
import tempfile, shutil
from vlib import *
import filegen

META = dict(technique="TLA+ model (Files.tla): exhaustive graph of one file and one handle, and TLC-evaluated histories over a small tree, replayed on real files in a scratch directory",
            note="Every operation from every state of a file of up to 3 bytes in every mode; histories over trees of names with several handles, buffers with partial ranges, four encodings, "
                 "blocks around the size of a stream's buffer, failing conversions, detached buffers, renames and removals under open handles.")


def match(e, a): return len(e) == len(a) and all(x == ["any"] or json.dumps(x) == json.dumps(y) or (x[0] == "st" and y[0] == "st" and x[:3] == y[:3] and x[3] == -1) for x, y in zip(e, a))


def run_scratch(ctx, b, cases, name, opts=()):
    scratch = tempfile.mkdtemp(prefix="c24-")
    f = os.path.join(ctx.sub("d-" + name), "files.js")
    open(f, "w").write("const SCRATCH = %s;\n" % json.dumps(scratch) + open(os.path.join(ROOT, "drivers", "files.js")).read())
    try: return run_cases(b, f, cases, ctx.sub("r-" + name), compare=lambda e, a, c: match(e, a), opts=opts)
    finally: shutil.rmtree(scratch, ignore_errors=True)


def replay(ctx, b, name, progs, what):
    exp = eval_programs(ctx, name, "Files", "Files", progs)
    cases = [Case(p, e) for p, e in zip(progs, exp)]
    bad = run_scratch(ctx, b, cases, name)
    ctx.note(part=what, histories=len(progs), ops=sum(len(p["ops"]) for p in progs))
    ctx.ran(cases)
    ctx.fails(bad, what)


def graph(ctx, b):
    r = tlc_ok("Files", "Files_G", ctx.sub("g"))
    g = load_graph(r)
    ctx.add_tlc("graph", r, graph_nodes=len(g.ids), graph_edges=g.nedges)
    walks, rem = cover_walks(g, 60, ctx.rng)
    cases = [Case({"c": 1, "ops": [x[0] for x in w]}, [x[1] for x in w]) for w in walks]
    bad = run_scratch(ctx, b, cases, "graph")
    ctx.note(part="one file, one handle", walks=len(walks), edges_left=rem)
    ctx.ran(cases)
    ctx.fails(bad, "graph replay")


def run(ctx):
    b = build()
    graph(ctx, b)
    g = filegen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8): replay(ctx, b, "h%d" % i, [g.prog(ctx.rng.randint(20, 80)) for _ in range(1000 if ctx.quick else 2500)], "histories")
    replay(ctx, b, "big", [g.big() for _ in range(12 if ctx.quick else 80)], "blocks around the stream's buffer")
