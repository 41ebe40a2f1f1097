"""C15: Map and Set against spec/MapSet.tla."""
from vlib import *

META = dict(technique="TLA+ model (MapSet.tla): exhaustive transition replay + TLC-evaluated random histories",
            note="Exhaustive over all histories of 3 keys, 2 values, 2 live iterators (every transition of the model "
                 "replayed on the engine); long random histories with up to 60 keys and 4 iterators evaluated by TLC.")


def proj(kind, op, r):
    """What the driver reports for Sets and for keys()/values() iterators: the outcome without value/key."""
    if kind in ("map",):
        return r
    if op["n"] == "get":
        return None if kind == "set" else r
    if isinstance(r, list):
        f = {"set": 0, "keys": 0, "values": 1}[kind]
        if op["n"] == "next":
            return r[f]
        if kind == "set":
            return [x[0] for x in r]
    return r


def mk(kind):
    def f(walk, cfg):
        w = [(o, proj(kind, o, r)) for o, r in walk if not (kind == "set" and o["n"] == "get")]
        return Case({"c": {"kind": kind}, "ops": [x[0] for x in w]}, [x[1] for x in w])
    return f


def gen(rng, n):
    nk = rng.choice([3, 6, 14, 30, 60])
    grow = rng.random()
    ops = []
    for _ in range(n):
        x = rng.random()
        k = rng.randint(1, nk)
        if x < 0.25 + 0.2 * grow:
            ops.append({"n": "set", "k": k, "v": rng.randint(1, 9)})
        elif x < 0.62:
            ops.append({"n": "del", "k": k})
        elif x < 0.66:
            ops.append({"n": "has", "k": k})
        elif x < 0.70:
            ops.append({"n": "get", "k": k})
        elif x < 0.71:
            ops.append({"n": "clear"})
        elif x < 0.73:
            ops.append({"n": "size"})
        elif x < 0.75:
            ops.append({"n": "all"})
        elif x < 0.80:
            ops.append({"n": "iter", "i": rng.randint(1, 4)})
        elif x < 0.98:
            ops.append({"n": "next", "i": rng.randint(1, 4)})
        else:
            m = rng.choice([["set", k, 7], ["del", k], ["clear"]])
            ops.append({"n": "each", "at": rng.randint(1, 5), "m": m})
    ops.append({"n": "all"})
    return ops


def run(ctx):
    b = build()
    r = tlc_ok("MapSet", "MapSet_G", ctx.sub("g"))
    g = load_graph(r)
    ctx.add_tlc("graph", r, graph_nodes=len(g.ids), graph_edges=g.nedges)
    kinds = ["map", "set"] if ctx.quick else ["map", "set", "keys", "values"]
    for kind in kinds:
        walks, rem = cover_walks(g, 60, ctx.rng)
        walks += random_walks(g, 50 if ctx.quick else 400, 200, ctx.rng)
        cases = [mk(kind)(w, None) for w in walks]
        bad = run_cases(b, "mapset.js", cases, ctx.sub("r-" + kind))
        ctx.note(part="replay " + kind, walks=len(walks), edges_left=rem)
        ctx.ran(cases)
        ctx.fails(bad, "graph replay, " + kind)
    n, ln = (160, 200) if ctx.quick else (1500, 400)
    progs = [{"c": 0, "ops": gen(ctx.rng, ln)} for _ in range(n)]
    exp = eval_programs(ctx, "e", "MapSet", "MapSet_E", progs)
    for kind in ["map", "set", "keys", "values"]:
        cases = [mk(kind)(list(zip(p["ops"], e)), None) for p, e in zip(progs, exp)]
        bad = run_cases(b, "mapset.js", cases, ctx.sub("re-" + kind))
        ctx.ran(cases)
        ctx.fails(bad, "random history, " + kind)
