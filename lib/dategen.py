"""Histories for spec/DateOps.tla."""
U = ["u"]
DAY = 86400000
u16 = lambda s: [ord(c) for c in s]
NARGS = {"Milliseconds": 1, "Seconds": 2, "Minutes": 3, "Hours": 4, "Date": 1, "Month": 2, "FullYear": 3}
TEXTS = ["toISOString", "toJSON", "toUTCString", "toDateString", "toTimeString", "toString"]


class Gen:
    def __init__(self, r, n=4): self.r, self.n = r, n

    def tval(self):
        r = self.r
        x = r.random()
        if x < 0.08: return ["nan"]
        if x < 0.3: d = r.randint(-200000, 200000)
        elif x < 0.5: d = r.choice([0, -1, 1, 59, 58, 60, 364, 365, 366, 10957, 11016, 11017, -25567, -25509, -719468, -719469, -719528, -719529, -719163, 2932896, 2932897, -146097, 146097, 10956, 47540, 47541])
        elif x < 0.7: d = r.choice([100000000, -100000000, 99999999, -99999999, 100000001, -100000001])
        else: d = r.randint(-100000000, 100000000)
        ms = r.choice([0, 0, 1, DAY - 1, r.randint(0, DAY - 1), 999, 1000, 59999, 3600000, r.randint(0, 86399) * 1000])
        return ["t", d, ms]

    def tnum(self):
        t = self.tval()
        return ["x", self.r.choice(["NaN", "Infinity", "-Infinity"])] if t[0] == "nan" else ["T", t[1], t[2]]

    def arg(self, k, eff=True):
        r = self.r
        x = r.random()
        if x < 0.04: return ["x", r.choice(["NaN", "Infinity", "-Infinity", "1.5", "-1.5", "-0"])]
        if x < 0.05: return U
        if x < 0.07: n = r.randint(-50, 50); return ["s", str(n), n]
        if x < 0.11 and eff: return ["d", self.arg(k, False), r.randint(1, self.n), self.tval()]
        y = r.random()
        if k == "y": n = r.choice([r.randint(1900, 2100), r.randint(-1, 101), r.randint(-400, 2500), r.randint(-271900, 275800), r.choice([0, 99, 100, -1, 1969, 1970, 2000, 1999, 275760, -271821, 1000000, -1000000])])
        elif k == "m": n = r.randint(0, 11) if y < 0.6 else r.choice([-1, 12, -12, -13, 24, 23, r.randint(-200, 200), 120000, -1000000])
        elif k == "d": n = r.randint(1, 31) if y < 0.5 else r.choice([0, -1, 29, 30, 31, 32, 60, 366, -365, r.randint(-1000, 1000), r.randint(-100000, 100000), 100000000, -200000000])
        elif k == "h": n = r.randint(0, 23) if y < 0.6 else r.choice([24, -1, 48, -24, r.randint(-1000, 1000), 80000000, -2000000])      # the sum of a time stays below 2^53: the arithmetic is exact
        elif k in ("i", "s"): n = r.randint(0, 59) if y < 0.6 else r.choice([60, -1, 3600, 86400, -60, r.randint(-100000, 100000), 1000000000, -999999999])
        else:
            if y > 0.9: return self.tnum() if y > 0.95 else ["T", r.randint(-100000, 100000), r.randint(0, DAY - 1)]
            n = r.randint(0, 999) if y < 0.6 else r.choice([1000, -1, 86400000, -86400000, 2000000000, r.randint(-1000000, 1000000)])
        return ["i", n]

    def iso(self):
        r = self.r
        x = r.random()
        if x < 0.03: return r.choice(["", "x", "hello", "Tuesday", "-"])
        y = r.choice([r.randint(0, 9999), r.randint(1960, 2040)])
        t = "%04d" % y if r.random() < 0.75 else r.choice(["+%06d" % r.choice([y, 275760, 999999, 0]), "-%06d" % r.choice([1, 271821, 271822, 0, r.randint(0, 200000)])])
        two = lambda hi: "%02d" % (r.randint(0, hi) if r.random() < 0.95 else r.choice([0, hi + 1, 99, hi, 31, 24, 60]))
        k = r.choice([0, 1, 2, 2, 2, 2, 2])
        if k > 0: t += "-" + ("%02d" % r.randint(1, 12) if r.random() < 0.95 else r.choice(["00", "13", "99"]))
        if k > 1: t += "-" + ("%02d" % r.randint(1, 28) if r.random() < 0.8 else r.choice(["00", "29", "30", "31", "32"]))
        if r.random() < 0.75:
            t += "T" + ("24:00" if r.random() < 0.05 else two(23) + ":" + two(59))
            if r.random() < 0.8:
                t += ":" + (two(59) if "24:00" not in t else "00")
                if r.random() < 0.7: t += "." + "%03d" % r.choice([0, 1, 10, 999, r.randint(0, 999)])
            t += r.choice(["Z", "Z", "Z", "", r.choice("+-") + two(14) + ":" + two(59)])
        if r.random() < 0.04: i = r.randint(0, len(t)); t = t[:i] + r.choice("0 -:TZz.+") + t[i + r.randint(0, 1):]
        return t

    def op(self):
        r = self.r
        o = {"i": r.randint(1, self.n), "j": r.randint(1, self.n), "a": [], "k": "", "utc": True, "t": []}
        x = r.random()
        trim = lambda l: l
        if x < 0.15:
            o["n"] = r.choice(["new", "utc", "utc"])
            m = r.choice([2, 3, 3, 4, 5, 6, 7, 7]) if o["n"] == "new" or r.random() < 0.95 else r.choice([0, 1])
            o["a"] = [self.arg(k) for k in "ymdhisz"[:m]]
        elif x < 0.25: o["n"] = "num"; o["a"] = [self.tnum() if r.random() < 0.8 else ["i", r.randint(-2000000000, 2000000000)] if r.random() < 0.8 else ["x", r.choice(["1.5", "-1.5", "-0"])]]
        elif x < 0.28: o["n"] = "copy"
        elif x < 0.32: o["n"] = "setTime"; o["a"] = [] if r.random() < 0.05 else [self.tnum() if r.random() < 0.8 else self.arg("z")]
        elif x < 0.7:
            o["n"] = "set"; o["utc"] = r.random() < 0.5
            o["k"] = r.choice(list(NARGS))
            m = r.randint(1, NARGS[o["k"]]) if r.random() < 0.97 else 0
            first = {"Milliseconds": 6, "Seconds": 5, "Minutes": 4, "Hours": 3, "Date": 2, "Month": 1, "FullYear": 0}[o["k"]]
            o["a"] = [self.arg(k) for k in "ymdhisz"[first:first + m]]
        elif x < 0.8: o["n"] = "text"; o["k"] = r.choice(TEXTS)
        elif x < 0.87: o["n"] = "round"; o["k"] = r.choice(["toISOString", "toUTCString", "toString"])
        elif x < 0.9: o["n"] = "cmp"
        else: o["n"] = "parse"; o["t"] = u16(self.iso())
        return o

    def prog(self, n, off): return {"c": {"n": self.n, "off": off}, "ops": [self.op() for _ in range(n)]}
