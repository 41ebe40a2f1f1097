"""C21: classes against spec/JSCore.tla."""
from jscheck import *

META = meta("Every kind of private element x way of use x kind of object, branding twice, half initialised objects, every super()/return combination; random class definitions with instrumented heritage, keys, initialisers, constructors and private names, evaluated once or twice, and uses of them.")


def run(ctx):
    js_check(ctx, [("c21", 1)], quick=2000, fixed=jsgen.c21_all(ctx.rng))
