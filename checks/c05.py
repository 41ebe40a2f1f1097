"""C05: generators against spec/JSCore.tla."""
from jscheck import *

META = meta("Random generator bodies driven by random next/return/throw histories, consumers, re-entrance and yield* to generators and hand-made iterators.")


def run(ctx):
    js_check(ctx, [("c05", 1)])
