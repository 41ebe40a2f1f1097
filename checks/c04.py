"""C04: async functions and await against spec/JSCore.tla."""
from jscheck import *

META = meta("Random async functions (nested try/loops/switch/for-await, every kind of awaited value, several running at once); every observation and its order.")


def run(ctx):
    js_check(ctx, [("c04", 1)])
