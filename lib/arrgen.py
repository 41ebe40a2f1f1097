"""Histories for spec/ArrayOps.tla."""
import itertools
import objgen
from objgen import N, U

INTS = [-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 12]
CB = ["every", "some", "forEach", "find", "findIndex", "findLast", "findLastIndex", "map", "filter", "flatMap", "reduce", "reduceRight"]
PLAIN = ["at", "copyWithin", "fill", "includes", "indexOf", "lastIndexOf", "join", "push", "pop", "shift", "unshift", "slice", "splice",
         "toSpliced", "toReversed", "reverse", "with", "concat", "flat"]
NOCB = {"b": [U], "t": 0, "d": 0, "op": {"n": "nop", "o": 1}, "th": U, "bad": False}


class Gen:
    def __init__(self, rng):
        self.r = rng

    def val(self, objs=True):
        r = self.r
        x = r.random()
        if x < 0.5: return N(r.choice([0, 1, 2, 3, 5, 10, 12, 21]))
        if x < 0.7: return ["s", r.choice(["a", "b", "aa", "ab", "3", "10", "", "B"])]
        if x < 0.78: return U
        if x < 0.82: return ["l"]
        if x < 0.87: return ["b", r.random() < 0.5]
        if x < 0.93: return ["x", r.choice(["NaN", "-0", "-1", "1.5", "-2"])]
        if objs and self.c: return ["o", r.randint(1, len(self.c))]
        return ["s", "x"]

    def els(self, n, hole=0.15):
        return [[str(i), self.val()] for i in range(n) if self.r.random() >= hole]

    def start(self):
        r = self.r
        self.c = c = []
        hole = r.choice([0, 0, 0.2, 0.5])
        kinds = r.choice(["a", "a", "a", "aa", "aa", "aaa", "al", "la", "l", "ap", "ap", "lp", "aap", "pa"])
        if kinds[0] == "p":
            kinds = "ap"
        for k in kinds:
            i = len(c) + 1
            p = r.choice([0, 0, 0] + list(range(1, i)))
            if k == "a":
                n = r.choice([0, 1, 2, 3, 3, 4, 5, 6, 9])
                kv = self.els(n, hole)
                if r.random() < 0.25: kv.append(["length", N(n + r.randint(0, 2))])
                c.append(["arr", p, r.choice(objgen.AHOSTS), kv])
            elif k == "l":
                n = r.choice([0, 1, 2, 3, 5])
                kv = self.els(n + r.randint(0, 2), hole)
                if r.random() < 0.9:
                    kv.append(["length", r.choice([N(n), N(n), N(n), ["v", n - objgen.BASE], ["x", "1.5"], ["x", "-1"], ["b", True], ["s", "2"]])])
                r.shuffle(kv)
                c.append(["obj", p, r.choice(["obj", "obj", "fn", "date", "margs"]), kv])
            else:
                c.append(["proxy", r.randint(1, len(c))])
        self.arrs = [i + 1 for i, x in enumerate(c)]
        self.ctor = None
        if r.random() < 0.25:
            j = len(c) + 1
            sp = r.choice([["c", r.randint(1, j)], ["c", j], U, ["l"], N(1)])
            c.append(["obj", 0, "obj", [["@@species", sp]] + ([["length", N(2)]] if r.random() < 0.5 else [])])
            for x in c[:-1]:
                if x[0] != "proxy" and r.random() < 0.8:
                    x[3].append(["constructor", r.choice([["o", j], ["o", j], ["o", j], N(1), ["l"], ["c", 1]])])
        if r.random() < 0.1:
            for x in c:
                if x[0] != "proxy" and r.random() < 0.6:
                    x[3].append(["@@isConcatSpreadable", r.choice([["b", True], ["b", False], U, N(0)])])
        self.og = objgen.Gen(r, "arr")
        self.og.c = [x[:2] for x in c]
        self.og.keys = [str(i) for i in range(7)] * 3 + ["length"] * 5 + ["a"]
        return c

    def inner(self):
        """a mutation performed from inside (callback, valueOf)"""
        r = self.r
        o = r.choice(self.arrs)
        x = r.random()
        i = str(r.randint(0, 6))
        if x < 0.4: return {"n": "puts", "o": o, "k": "length", "v": N(r.choice([0, 0, 1, 2, 3, 8]))}
        if x < 0.6: return {"n": "puts", "o": o, "k": i, "v": self.val()}
        if x < 0.8: return {"n": "del", "o": o, "k": i}
        if x < 0.9: return {"n": "deft", "o": o, "k": i, "d": {"v": [], "w": [], "g": [["f", "p"]], "s": [], "e": [True], "c": [True]}}
        return {"n": "puts", "o": o, "k": str(r.randint(5, 12)), "v": self.val()}

    def num(self):
        r = self.r
        x = r.random()
        if x < 0.8: return ["i", r.choice(INTS)]
        if x < 0.85: return U
        if x < 0.9: return ["x", r.choice(["Infinity", "-Infinity", "NaN", "1.5", "-1.5", "-0"])]
        if x < 0.92: return r.choice([["s", "2"], ["s", "a"], ["b", True], ["l"], ["y", "@@s"], ["vt"]])
        return ["vd", r.choice(INTS), self.inner()]

    def anyval(self):
        v = self.val()
        return v

    def args(self, m):
        r = self.r
        nums = {"at": 1, "flat": 1, "copyWithin": 3, "slice": 2}
        if m == "flat":
            return [r.choice([["i", 0], ["i", 1], ["i", 2], ["i", -1], U, ["s", "2"]])][:r.randint(0, 1)]
        if m in nums:
            n = nums[m]
            return [self.num() for _ in range(r.choice([n, n, n, n - 1, 0]))]
        if m == "fill":
            return [self.anyval()] + [self.num() for _ in range(r.randint(0, 2))]
        if m in ("includes", "indexOf", "lastIndexOf"):
            return [self.anyval()] + [self.num() for _ in range(r.choice([0, 0, 1]))]
        if m == "join":
            return r.choice([[], [], [U], [["s", "-"]], [["s", ""]], [N(3)], [["l"]]])
        if m in ("push", "unshift"):
            return [self.anyval() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if m in ("splice", "toSpliced"):
            return ([self.num() for _ in range(r.choice([0, 1, 2, 2, 2, 2]))] + [self.anyval() for _ in range(r.choice([0, 0, 1, 2, 3]))])
        if m == "with":
            return [self.num(), self.anyval()][:r.choice([2, 2, 2, 1])]
        if m == "concat":
            return [r.choice([["o", r.randint(1, len(self.c))], self.anyval()]) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        return []

    def cb(self, m):
        r = self.r
        if r.random() < 0.03:
            return dict(NOCB, bad=True)
        b = [r.choice([["b", True], ["b", False], self.val()]) for _ in range(r.choice([1, 2, 3]))]
        if m in ("every",): b = [["b", True]] * r.choice([1, 3]) + b
        if m in ("some", "find", "findIndex", "findLast", "findLastIndex"): b = [["b", False]] * r.choice([1, 3]) + b
        if m == "flatMap" and r.random() < 0.6: b.append(["o", r.randint(1, len(self.c))])
        return {"b": b, "t": r.choice([0] * 12 + [1, 2, 3]), "d": r.choice([0, 0, 0, 1, 2, 3]), "op": self.inner(),
                "th": r.choice([U, U, N(5), ["o", 1]]), "bad": False}

    def op(self, sort=False):
        r = self.r
        o = r.choice(self.arrs)
        if sort:
            o = r.choice([i for i in self.arrs if self.c[i - 1][0] != "proxy"] or [1])
            return {"n": "am", "o": o, "m": r.choice(["sort", "sort", "toSorted"]),
                    "cmp": r.choice([["none", 1, 1], ["num", 1, 1], ["num", 2, 1], ["num", 5, 1], ["num", 3, -1], ["num", 100, 1], ["num", 1, -1]]
                                    + ([["throw", 1, 1], ["bad", 1, 1]] if r.random() < 0.1 else [])), "a": []}
        x = r.random()
        if x < 0.25:
            m = r.choice(CB)
            y = {"n": "am", "o": o, "m": m, "a": [], "cb": self.cb(m)}
            if m in ("reduce", "reduceRight") and r.random() < 0.6: y["a"] = [self.anyval()]
            return y
        if x < 0.78:
            m = r.choice(PLAIN + ["splice", "splice", "slice", "concat", "copyWithin", "indexOf", "lastIndexOf", "shift", "unshift"])
            return {"n": "am", "o": o, "m": m, "a": self.args(m)}
        if x < 0.82:
            m = r.choice(["from", "from", "of", "isArray"])
            y = {"n": "am", "o": o, "m": m, "a": [self.anyval() for _ in range(r.randint(0, 3))], "cb": self.cb("map"), "map": r.random() < 0.6,
                 "c": r.choice([U, U, ["c", r.choice(self.arrs)]])}
            return y
        if x < 0.85:
            return {"n": "am", "o": o, "m": "iter", "k": r.choice(["keys", "values", "entries"]), "a": []}
        if x < 0.89:
            return {"n": "am", "o": o, "m": "next", "j": r.choice([1, 1, 2]), "a": []}
        px = [i + 1 for i, y in enumerate(self.c) if y[0] == "proxy"]
        if px and r.random() < 0.7:
            t = r.choice(["get", "set", "has", "deleteProperty", "defineProperty", "get", "set", "has", "ownKeys", "getOwnPropertyDescriptor"])
            b = r.choice([["fwd"], ["fwd"], ["fwd"], ["none"], ["throw"], ["ret", ["b", r.random() < 0.7]]])
            if b[0] == "ret" and t in ("get", "ownKeys", "getOwnPropertyDescriptor"): b = ["fwd"]
            return {"n": "trap", "o": r.choice(px), "t": t, "b": b}
        if x < 0.97:
            return self.inner()
        k = str(r.randint(0, 4))
        return r.choice([{"n": "freeze", "o": o}, {"n": "seal", "o": o}, {"n": "pet", "o": o},
                         {"n": "def", "o": o, "k": k, "d": {"v": [], "w": [False], "g": [], "s": [], "e": [], "c": [r.random() < 0.5]}},
                         {"n": "def", "o": o, "k": "length", "d": {"v": [], "w": [False], "g": [], "s": [], "e": [], "c": []}}])

    def tail(self, c):
        ops = []
        for i in range(1, len(c) + 1):
            if c[i - 1][0] != "proxy":
                ops.append({"n": "oents", "o": i})
                ops.append({"n": "get", "o": i, "k": "length", "rc": ["o", i]})
        return ops

    def prog(self, n, sort=False):
        """state dumps after every method call: the heap's own objects and the array just made are compared"""
        c = self.start()
        ops = []
        for i in range(n):
            x = self.op(sort and self.r.random() < 0.6)
            ops.append(x)
            if x["n"] == "am" and x["m"] not in ("next", "iter", "isArray"):
                ops.append({"n": "dump"})
        return {"c": c, "ops": ops + self.tail(c)}


VA = N(1)
def family(depth=3):
    """every method on every hole pattern of up to `depth` elements with all small arguments"""
    arrs = []
    for n in range(depth + 1):
        for pat in itertools.product([0, 1], repeat=n):
            arrs.append([[str(i), N(i + 1)] for i in range(n) if pat[i]] + [["length", N(n)]])
    rel = [["i", -2], ["i", -1], ["i", 0], ["i", 1], ["i", 2], ["i", 3], ["i", 9], ["i", -9]]
    calls = []
    for m in ("pop", "shift", "reverse", "toReversed", "join"):
        calls.append((m, []))
    for m in ("push", "unshift"):
        calls += [(m, [["s", "p"]] * k) for k in range(3)]
    for m in ("at",):
        calls += [(m, [a]) for a in rel]
    calls += [("with", [a, ["s", "w"]]) for a in rel]
    for m in ("slice",):
        calls += [(m, [a, b]) for a in rel for b in rel + [U]]
    calls += [("slice", [a]) for a in rel]
    for m in ("splice", "toSpliced"):
        calls += [(m, [a, b] + [["s", "p"]] * k) for a in rel[:7] for b in rel[1:6] for k in range(3)]
        calls += [(m, [a]) for a in rel] + [(m, [])]
    calls += [("copyWithin", [a, b, d]) for a in rel[1:6] for b in rel[1:6] for d in rel[1:6]]
    calls += [("copyWithin", [a, b]) for a in rel for b in rel]
    calls += [("fill", [["s", "f"], a, b]) for a in rel for b in rel]
    for m in ("includes", "indexOf", "lastIndexOf"):
        calls += [(m, [v, a]) for v in (N(1), N(3), U) for a in rel] + [(m, [v]) for v in (N(1), N(3), U)]
    out = []
    for kv in arrs:
        for kind in ("arr", "obj"):
            for m, a in calls:
                out.append({"c": [[kind, 0, kind, kv]], "ops": [{"n": "am", "o": 1, "m": m, "a": a}, {"n": "dump"}]})
    return out


def big_sorts(r, n):
    out = []
    for _ in range(n):
        ln = r.choice([2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 100, r.randint(2, 200)])
        m = r.choice([2, 3, 7, 50, 101, 1000])
        x = {"n": "sortbig", "len": ln, "p": [r.randint(0, 50), r.randint(0, 900), r.randint(0, 1000), m], "div": r.choice([1, 1, 2, 5, 40]),
             "sg": r.choice([1, 1, -1]), "str": r.random() < 0.3, "und": r.choice([0, 0, 2, 5, 7]), "hole": r.choice([0, 0, 3, 4, 11]),
             "how": r.choice(["sort", "sort", "to", "like"])}
        out.append({"c": [], "ops": [x]})
    return out


RANGE = {"Int8Array": (-128, 127), "Uint8Array": (0, 255), "Uint8ClampedArray": (0, 255), "Int16Array": (-32768, 32767), "Uint16Array": (0, 65535),
         "Int32Array": (-1000000, 1000000), "Uint32Array": (0, 1000000), "Float32Array": (-1000, 1000), "Float64Array": (-1000000, 1000000),
         "BigInt64Array": (-1000000, 1000000), "BigUint64Array": (0, 1000000)}


def ta_sorts(r, n):
    out = []
    for _ in range(n):
        t = r.choice(list(RANGE))
        lo, hi = RANGE[t]
        sp = r.choice([(lo, hi), (max(lo, -3), 3), (max(lo, -20), 20)])
        div = r.choice([0, 0, 1, 3, 10])
        a = [["i", r.randint(*sp)] for _ in range(r.choice([0, 1, 2, 3, 5, 9, 16, 33, 60]))]
        if t.startswith("Float") and div == 0:
            a = [["x", r.choice(["NaN", "Infinity", "-Infinity", "-0"])] if r.random() < 0.3 else v for v in a]
        out.append({"c": [], "ops": [{"n": "tasort", "t": t, "a": a, "div": div, "sg": r.choice([1, 1, -1]), "how": r.choice(["sort", "to"])}]})
    return out


def any_sorts(r, n):
    return [{"c": [], "ops": [{"n": "sortany", "len": r.choice([2, 3, 7, 20, 64, 150]), "k": r.choice(["one", "neg", "gt", "rnd", "nan", "first", "grow", "shrink", "swap"]),
                               "p": [r.randint(1, 10**6), r.choice([0, 0, 3, 10]), r.choice([1, 2, 3, 7])], "how": r.choice(["sort", "to"])}]} for _ in range(n)]
