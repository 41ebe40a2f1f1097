"""C17: arguments objects against spec/JSCore.tla."""
from jscheck import *

META = meta("Every sequence of two and many (thorough: all) of three operations on a mapped element, plus random bodies writing, deleting, redefining, freezing, iterating and leaking arguments and parameters (simple, default, rest, pattern, duplicate; strict and sloppy; generators); state shown after each step.")


def run(ctx):
    js_check(ctx, [("c17", 1)], quick=2000, fixed=jsgen.c17_all(ctx.rng, 700 if ctx.quick else 10 ** 6))
