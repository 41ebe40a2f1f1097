"""C03: promises and jobs against spec/JSCore.tla."""
from jscheck import *

META = meta("Random promise programs (reaction chains, combinators, thenables, subclassing, species, hostile constructors, async functions among them); every observation and its order.")


def run(ctx):
    js_check(ctx, [("c03", 1)])
