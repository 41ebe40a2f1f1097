"""C26: for-in, Object.keys/values/entries, assign, spread and rest, against spec/JSCore.tla."""
from jscheck import *

META = meta("Random objects (integer, string, symbol, accessor, non-enumerable keys; prototype chains; strings, arrays, arguments) walked by for-in and the key listing built-ins while the bodies and getters add, delete, redefine and re-prototype; every visit and the final state shown.")


def run(ctx):
    js_check(ctx, [("c26", 1)])
