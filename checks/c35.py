"""C35: this, arguments and new.target, against spec/JSCore.tla."""
from jscheck import *

META = meta("Random functions, methods, arrows, accessors, classes and bound functions (nested), called directly, as methods, by call/apply/Reflect.apply/Reflect.construct/new, with spread and array-like arguments, primitives as this, sloppy and strict.")


def run(ctx):
    js_check(ctx, [("c35", 1)])
