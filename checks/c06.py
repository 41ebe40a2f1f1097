"""C06: async generators against spec/JSCore.tla."""
from jscheck import *

META = meta("Random async generator bodies with random request histories (queued, late, from inside), yield* to sync/async/hand-made iterators, for await.")


def run(ctx):
    js_check(ctx, [("c06", 1)])
