"""C36: integer behaviour of Numbers against spec/NumOps.tla."""
from vlib import *
import numgen
from c23 import replay

META = dict(technique="TLA+ model (NumOps.tla over Big.tla): exact integer semantics evaluated by TLC with range invariants, replayed on the engine",
            note="ToInt32/ToUint32 operators, arithmetic on integral Numbers, NaN, infinities, -0 and halves, in several syntactic forms; "
                 "parseInt, Number(text), numeric literals, toString(radix), ToLength, ToIndex.")


def run(ctx):
    b = build()
    for i in range(1 if ctx.quick else 8):
        replay(ctx, b, "gen%d" % i, "NumOps", [numgen.prog(ctx.rng, False, 30) for _ in range(2500 if ctx.quick else 5000)], "random operands")
