"""C31: dates against spec/DateOps.tla."""
from vlib import *
import dategen

META = dict(technique="TLA+ model (DateOps.tla): proleptic Gregorian dates evaluated by TLC with invariants, random histories replayed on the engine",
            note="Time values over the whole range, fields in and far out of range, every setter in UTC and local time (fixed offsets), conversions that "
                 "change the date being set, ISO texts valid and not, every text form and its round trip.")

ZONES = [("UTC0", 0), ("XXX-5:30", 330), ("YYY8", -480), ("ZZZ-12:45", 765), ("VVV0:15", -15)]


def match(e, a):
    if e == ["any"]: return True
    if isinstance(e, list) and isinstance(a, list): return len(e) == len(a) and all(match(x, y) for x, y in zip(e, a))
    return type(e) is type(a) and e == a


def run(ctx):
    b = build()
    g = dategen.Gen(ctx.rng)
    for i in range(1 if ctx.quick else 8):
        progs = [g.prog(ctx.rng.randint(10, 60), ZONES[k % len(ZONES)][1]) for k in range(1000 if ctx.quick else 3000)]
        exp = eval_programs(ctx, "gen%d" % i, "DateOps", "DateOps", progs)
        for tz, off in ZONES:
            cases = [Case(p, e) for p, e in zip(progs, exp) if p["c"]["off"] == off]
            bad = run_cases(b, "date.js", cases, ctx.sub("r-gen%d%d" % (i, off)), env={"TZ": tz}, compare=lambda e, a, c: match(e, a))
            ctx.note(part="random histories, offset %d min" % off, histories=len(cases), ops=sum(len(c.input["ops"]) for c in cases))
            ctx.ran(cases)
            ctx.fails(bad, "random histories, TZ=" + tz)
