"""Random histories for spec/Objects.tla."""
BASE = 2147483648
def N(i): return ["n", i - BASE]
U = ["u"]
HOSTS = ["obj", "nullobj", "inst", "fn", "bound", "native", "args", "margs", "date", "regexp", "str", "num", "bool", "symo",
         "big", "map", "set", "weak", "promise", "buf", "view", "gen", "err", "iter", "json", "spread"]
AHOSTS = ["arr", "arrn", "arrf", "arrs", "arrj", "arrt", "arrr", "arrm"]
TRAPS = ["getPrototypeOf", "setPrototypeOf", "isExtensible", "preventExtensions", "getOwnPropertyDescriptor",
         "defineProperty", "has", "get", "set", "deleteProperty", "ownKeys"]


class Gen:
    def __init__(self, rng, kind):
        self.r = rng
        self.kind = kind            # obj | arr | proxy

    def start(self):
        r = self.r
        c = []
        if self.kind == "obj":
            for i in range(r.randint(1, 5)):
                c.append(["obj", r.choice([0] + list(range(1, i + 1))), r.choice(HOSTS)])
            if r.random() < 0.3:
                c.append(["arr", r.choice([0, 1]), r.choice(AHOSTS)])
        elif self.kind == "arr":
            if r.random() < 0.5:
                c.append(["obj", 0, "obj"])
            for i in range(r.randint(1, 2)):
                c.append(["arr", r.choice([0] + list(range(1, len(c) + 1))), r.choice(AHOSTS)])
        else:
            for i in range(r.randint(1, 3)):
                if r.random() < 0.3:
                    c.append(["arr", r.choice([0] + list(range(1, i + 1))), "arr"])
                else:
                    c.append(["obj", r.choice([0] + list(range(1, i + 1))), r.choice(["obj", "fn", "inst", "obj", "margs"])])
            for i in range(r.randint(1, 3)):
                c.append(["proxy", r.randint(1, len(c))])
            if r.random() < 0.4:
                c.append(["obj", len(c), "obj"])      # inherits from a proxy
        self.c = c
        nk = r.choice([2, 3, 6, 12])
        pool = ["a", "b", "c", "dd", "e", "f", "g", "h", "x1", "01", "-0", "1.5", "", " 1", "length2", "4294967295",
                "@@s", "@@t", "constructor", "valueOf", "then"]
        idx = [str(i) for i in range(41)]
        big = ["1000", "65536", "2147483647", "2147483648", "4294967293", "4294967294"]
        mode = r.random()
        if self.kind == "arr":
            hi = r.choice([3, 6, 12, 40])
            self.keys = idx[:hi] * 3 + ["a", "@@s", "01", "4294967295"]
            if r.random() < 0.4:
                self.keys += big
            self.keys += ["length"] * (hi if r.random() < 0.7 else 2)
        elif mode < 0.25:
            hi = r.choice([3, 12, 40])
            self.keys = idx[:hi] + r.sample(pool, 3) + (big if r.random() < 0.4 else [])
        else:
            self.keys = r.sample(pool, min(nk, len(pool))) + r.sample(idx[:5], r.choice([0, 1, 2]))
        if any(x[0] == "arr" for x in c) and self.kind != "arr":
            self.keys += ["length", "0"]
            for x in c:
                if len(x) > 2 and x[2] == "str":
                    x[2] = "date"
        return c

    def val(self):
        r = self.r
        x = r.random()
        if x < 0.45: return N(r.choice([0, 1, 2, 3, 5, 7, 12, 40, 4294967295 if r.random() < 0.1 else 4]))
        if x < 0.55: return U
        if x < 0.62: return ["l"]
        if x < 0.72: return ["b", r.random() < 0.5]
        if x < 0.80: return ["s", r.choice(["a", "b", "3", "x"])]
        if x < 0.84: return ["x", r.choice(["-1", "1.5", "NaN", "Infinity", "4294967296"])]
        if x < 0.90: return ["v", r.choice([0, 2, 4, 9]) - BASE]
        return ["f", r.choice("pq")]

    def value(self, key):
        while True:
            v = self.val()
            if key == "length":
                if v[0] in ("f",) or (v[0] == "u" and False):
                    continue
                if v[0] in ("u",) and self.r.random() < 0.8:
                    continue
                return v
            if v[0] == "f" and self.r.random() < 0.5 and len(self.c):
                return ["o", self.r.randint(1, len(self.c))]
            return v

    def tri(self):
        return self.r.choice([[], [], [True], [False]])

    def pd(self, key):
        r = self.r
        d = {"v": [], "w": [], "g": [], "s": [], "e": self.tri(), "c": self.tri()}
        x = r.random()
        if x < 0.6:
            if r.random() < 0.7: d["v"] = [self.value(key)]
            d["w"] = self.tri()
        elif x < 0.9:
            if r.random() < 0.7: d["g"] = [r.choice([U, ["f", "p"], ["f", "q"]])]
            if r.random() < 0.7: d["s"] = [r.choice([U, ["f", "p"], ["f", "q"]])]
        elif x < 0.93:
            d["g"] = [["f", "p"]]; d["v"] = [N(1)]
        elif x < 0.95:
            d["g"] = [r.choice([N(1), ["l"], ["b", False]])]
        if r.random() < 0.3:
            d["c"] = [True]
        return d

    def oid(self):
        return self.r.randint(1, len(self.c))

    def proto(self, o):
        r = self.r
        if self.kind == "proxy":        # no cycles through proxies: those have no finite behaviour
            while self.c[o - 1][0] == "proxy":
                o = self.c[o - 1][1]
            return r.choice([0] + list(range(1, o)))
        return r.randint(0, len(self.c))

    def op(self, deep=0):
        r = self.r
        o = self.oid()
        if self.kind == "arr" and self.c[o - 1][0] != "arr" and r.random() < 0.7:
            o = len(self.c)
        if self.kind == "proxy" and r.random() < 0.5:
            o = r.choice([i + 1 for i, x in enumerate(self.c) if x[0] == "proxy"])
        k = r.choice(self.keys)
        frz = 0.3 if self.kind == "arr" else 1
        names = [("get", 8), ("set", 8), ("put", 6), ("puts", 3), ("has", 4), ("del", 5), ("dels", 3), ("def", 12), ("deft", 6),
                 ("gopd", 5), ("hop", 2), ("pie", 2), ("keys", 4), ("okeys", 2), ("oents", 2), ("getp", 2), ("setp", 3),
                 ("setpt", 1), ("pe", 0.8 * frz), ("pet", 0.3 * frz), ("ie", 2), ("freeze", 0.4 * frz), ("seal", 0.4 * frz),
                 ("isfrozen", 1.5), ("issealed", 1.5)]
        if self.kind == "arr":
            names += [("put", 14), ("set", 6), ("dels", 6), ("keys", 3)]
        if self.kind == "proxy" and not deep:
            names += [("trap", 25), ("revoke", 0.15), ("ie", 2), ("keys", 5), ("getp", 3), ("setp", 3), ("pe", 1.5)]
        n = r.choices([x[0] for x in names], [x[1] for x in names])[0]
        if n in ("trap", "revoke"):
            px = [i + 1 for i, x in enumerate(self.c) if x[0] == "proxy"]
            o = r.choice(px)
            x = {"n": n, "o": o}
            if n == "trap":
                x["t"] = r.choice(TRAPS)
                x["b"] = self.behave(x["t"], o)
            return x
        x = {"n": n, "o": o}
        if n in ("get", "set", "put", "puts", "has", "del", "dels", "def", "deft", "gopd", "hop", "pie"):
            x["k"] = k
        if n in ("set", "put", "puts"):
            x["v"] = self.value(k)
        if n in ("get", "set"):
            y = r.random()
            x["rc"] = ["o", o] if y < 0.6 else ["o", self.oid()] if y < 0.9 else r.choice([U, N(1), ["s", "a"]])
        if n in ("def", "deft"):
            x["d"] = self.pd(k)
        if n in ("setp", "setpt"):
            x["p"] = self.proto(o)
        return x

    def behave(self, t, o):
        r = self.r
        x = r.random()
        if x < 0.12: return ["none"]
        if x < 0.15: return ["null"]
        if x < 0.17: return ["bad"]
        if x < 0.22: return ["throw"]
        if x < 0.55: return ["fwd"]
        if x < 0.65:
            res = U if t in ("getOwnPropertyDescriptor", "ownKeys") else ["l"] if t == "getPrototypeOf" else \
                r.choice([["b", True], ["b", False], U, N(1)])
            return ["do", self.op(1), res]
        if t == "getOwnPropertyDescriptor":
            return ["ret", r.choice([U, U, N(1), ["l"], ["s", "a"]])] if r.random() < 0.35 else ["desc", self.pd("a")]
        if t == "ownKeys":
            if r.random() < 0.1:
                return ["ret", r.choice([U, N(1), ["s", "a"]])]
            ks = [["y", k] if k.startswith("@@") else ["s", k] for k in dict.fromkeys(r.choices(self.keys, k=r.randint(0, 4)))]
            if r.random() < 0.1 and ks: ks.append(r.choice([ks[0], N(1), U]))
            return ["keys", ks]
        if t == "getPrototypeOf":
            return ["ret", r.choice([["l"], ["o", self.oid()], ["o", self.oid()], U, N(1)])]
        if t == "get":
            return ["ret", self.value("")]
        return ["ret", r.choice([["b", True], ["b", True], ["b", False], U, N(0), N(1), ["s", ""], ["s", "a"], ["x", "NaN"], ["l"]])]

    def prog(self, n):
        c = self.start()
        ops = [self.op() for _ in range(n)]
        for i in range(1, len(c) + 1):
            ops.append({"n": "keys", "o": i})
            if c[i - 1][0] == "arr":
                ops.append({"n": "oents", "o": i})
        return {"c": c, "ops": ops}
