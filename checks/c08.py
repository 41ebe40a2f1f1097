"""C08: iterator consumers against spec/JSCore.tla."""
from jscheck import *

META = meta("Random consumers (for-of, destructuring, spread, Array.from, collection constructors, yield*) over instrumented iterators that fail or finish at every step.")


def run(ctx):
    js_check(ctx, [("c08", 1)])
