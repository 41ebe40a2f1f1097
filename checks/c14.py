"""C14: sort and toSorted against spec/ArrayOps.tla."""
from vlib import *
import arrgen
from c13 import replay

META = dict(technique="TLA+ model (ArrayOps.tla): random arrays and comparators evaluated by TLC, replayed on the engine",
            note="Exact result for consistent comparators with many ties (stability), default order, holes, undefined, array-likes; "
                 "permutation only for inconsistent comparators; long arrays; comparator errors leave the array unchanged.")


def run(ctx):
    b = build()
    n = 500 if ctx.quick else 5000
    replay(ctx, b, "big", arrgen.big_sorts(ctx.rng, n) + arrgen.ta_sorts(ctx.rng, n) + arrgen.any_sorts(ctx.rng, n // 2), "long arrays, typed arrays, inconsistent comparators")
    g = arrgen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "gen%d" % i, [g.prog(ctx.rng.randint(3, 10), True) for _ in range(1500 if ctx.quick else 4000)], "random histories")
