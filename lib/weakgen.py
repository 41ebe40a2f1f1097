"""Histories for Weak.tla."""


class Gen:
    def __init__(self, rng): self.r = rng

    def op(self):
        r = self.r
        v = lambda: r.randint(1, self.nv)
        v0 = lambda: r.randint(0, self.nv)
        n = r.choices(["new", "mv", "drop", "walk", "link", "foll", "wref", "deref", "mset", "mget", "mhas", "mdel", "sadd", "shas", "sdel", "reg", "unreg"],
                      [16, 6, 12, 3, 14, 6, 5, 6, 14, 5, 2, 2, 4, 2, 1, 9, 2])[0]
        if n == "new": return {"n": n, "kind": r.choices("oymsf", [10, 2, 5, 2, 1])[0], "i": v()}
        if n == "mv": return {"n": n, "i": v(), "j": v()}
        if n == "drop": return {"n": n, "l": sorted(r.sample(range(1, self.nv + 1), r.choice([1, 1, 2, 3])))}
        if n == "walk": return {"n": n}
        if n == "link": return {"n": n, "i": v(), "p": r.randint(1, 2), "j": v()}
        if n == "foll": return {"n": n, "i": v(), "p": r.randint(1, 2), "k": v()}
        if n in ("wref", "deref"): return {"n": n, "i": self.of("w") if n == "deref" else v(), "k": v()}
        if n[0] == "m": return {"n": n, "i": self.of("m"), "j": v(), "k": v0()}
        if n[0] == "s": return {"n": n, "i": self.of("s"), "j": v()}
        if n == "reg": return {"n": n, "i": r.randint(1, 2), "j": v(), "h": r.randint(1, 99), "ho": v() if r.random() < 0.4 else 0, "k": v() if r.random() < 0.6 else 0}
        return {"n": n, "i": r.randint(1, 2), "j": v()}

    def of(self, k):
        """a variable that was last given that kind"""
        l = [i for i in self.kinds if self.kinds[i] == k]
        return self.r.choice(l) if l and self.r.random() < 0.9 else self.r.randint(1, self.nv)

    def prog(self, n):
        r = self.r
        self.nv = r.randint(3, 6)
        self.kinds = {}
        ops = [{"n": "new", "kind": "f", "i": r.randint(1, self.nv)} for _ in range(r.choice([0, 1, 1, 2]))]
        for _ in range(n):
            o = self.op()
            if o["n"] == "new": self.kinds[o["i"]] = o["kind"]
            elif o["n"] == "wref": self.kinds[o["k"]] = "w"
            elif o["n"] in ("mv", "foll", "mget", "deref") and o["n"] != "mv": self.kinds.pop(o["k"], 0)
            ops.append(o)
        return {"c": self.nv, "ops": ops + [{"n": "walk"}]}
