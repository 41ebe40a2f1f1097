"""C12: arrays against spec/Objects.tla."""
from vlib import *
import objgen
from c11 import run_kind, graph

META = dict(technique="TLA+ model (Objects.tla): exhaustive small-array graph + TLC-evaluated random histories replayed on the engine",
            note="Every transition of a 3-element array's graph (elements, length, attributes, extensibility) replayed on all ways of "
                 "making an array; random dense and sparse histories up to index 2^32-2.")


def run(ctx):
    b = build()
    graph(ctx, b, "ObjGraph_A", ["arr", "arrs"] if ctx.quick else objgen.AHOSTS, "arr")
    run_kind(ctx, b, "arr", *((500, 90) if ctx.quick else (6000, 200)))
