"""C07: abrupt completions against spec/JSCore.tla."""
from jscheck import *

META = meta("Random nestings of try/catch/finally, loops, switch, labels, with, for-of and recursion with break/continue/return/throw at every position.")


def run(ctx):
    js_check(ctx, [("c07", 3), ("c05", 1), ("c04", 1)])
