"""C16: proxies against spec/Objects.tla."""
from vlib import *
from c11 import run_kind

META = dict(technique="TLA+ model (Objects.tla): TLC-evaluated random histories of proxies replayed on the engine",
            note="Chains of proxies with missing, wrong, throwing, forwarding, lying and re-entrant traps; trap arguments, order and "
                 "the invariant checks are compared step by step.")


def run(ctx):
    b = build()
    run_kind(ctx, b, "proxy", *((900, 60) if ctx.quick else (9000, 120)))
