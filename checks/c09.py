"""C09: identifier resolution against spec/JSCore.tla."""
from jscheck import *

META = meta("Random nestings of scopes, closures, loops, eval, with and deletions over a small pool of names.")


def run(ctx):
    js_check(ctx, [("c09", 1)])
