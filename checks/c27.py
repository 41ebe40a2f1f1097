"""C27: evaluation order and conversions, against spec/JSCore.tla."""
from jscheck import *

META = meta("Random expression trees over every operator, access, call, construction, template, optional chain, destructuring, class and update form, whose leaves log their evaluation and conversion (valueOf/toString/@@toPrimitive with hint, getters, setters, iterator steps) and may throw.")


def run(ctx):
    js_check(ctx, [("c27", 1)])
