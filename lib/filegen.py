"""Histories for Files.tla."""

ENC = ["", "", "UTF-8", "UTF-16LE", "ISO-8859-1"]
CPS = [97, 98, 10, 32, 10, 65, 126, 127, 48, 9]
UNI = [233, 255, 128, 2047, 2048, 8364, 65533, 0x1F600, 0x10FFFF, 0xD7FF, 0xE000]


class Gen:
    """keeps a rough picture of the name space, so that most operations succeed and no file is looked at while a handle may hold unwritten bytes"""
    def __init__(self, rng): self.r = rng

    def path(self):
        r = self.r
        p = [r.choice("abd")]
        while len(p) < 3 and r.random() < 0.35: p.append(r.choice("abd"))
        return p

    def known(self, kind=None):
        """mostly an existing path"""
        r = self.r
        c = [list(p) for p, v in self.fs.items() if kind is None or v[0] == kind]
        return r.choice(c) if c and r.random() < 0.8 else self.path()

    def fresh(self):
        r = self.r
        d = [p for p, v in self.fs.items() if v[0] == "d" and len(p) < 3]
        return list(r.choice(d)) + [r.choice("abd")] if r.random() < 0.8 else self.path()

    def enc(self): return self.r.choice(ENC)

    def text(self, e):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 5, 9, 20])
        return [r.choice(CPS) if r.random() < 0.8 else r.choice(UNI[:2] if e == "ISO-8859-1" else UNI) for _ in range(n)]

    def arg(self):
        r = self.r
        return r.choice([[], [], [], [0], [1], [2], [8], [9], [40], [-1], [0, 0], [0, 1], [1, 1], [1, 2], [3, 99], [2, -5], [7, 1], [8, 1], [5, 3]])

    def busy(self, p):
        v = self.fs.get(tuple(p))
        return v is not None and v[0] == "f" and any(h["open"] and h["i"] == v[1] for h in self.h)

    # the generator's own picture (only a guide: expectations come from the specification)
    def make(self, p, k):
        p = tuple(p)
        if p not in self.fs and p[:-1] in self.fs and self.fs[p[:-1]][0] == "d":
            self.i += 1
            self.fs[p] = (k, self.i)

    def op(self):
        r = self.r
        live = [i + 1 for i, h in enumerate(self.h) if h["open"]]
        k = r.random()
        if live and k < 0.55: return self.hop(r.choice(live))
        if k < 0.6: return self.hop(r.randint(0, len(self.h)))
        if k < 0.75:
            p = self.known("f") if r.random() < 0.6 else self.fresh()
            if self.busy(p) or self.fs.get(tuple(p), "f")[0] == "d": return {"n": "stat", "p": p} if not self.busy(p) else {"n": "gc"}
            m = r.choice(["r", "r+", "w", "w+", "a", "a+", "r", "r+", "a"]) + r.choice(["", "", "b"])
            if r.random() < 0.05: m = r.choice(["", "x", "b", "q+"])
            ok = tuple(p) in self.fs or (m[:1] in ("w", "a") and self.fs.get(tuple(p[:-1]), "f")[0] == "d")
            if ok and m[:1] in ("r", "w", "a"):
                self.make(p, "f")
                self.h.append({"open": True, "i": self.fs[tuple(p)][1]})
            return {"n": "open", "p": p, "m": m}
        return self.fop()

    def hop(self, h):
        r = self.r
        n = r.choice(["read", "read", "write", "write", "getc", "putc", "gets", "puts", "seek", "seek", "tell", "close"])
        x = {"n": n, "h": h}
        if n in ("read", "write"): x.update(b=r.randint(1, 4), a=self.arg())
        elif n == "putc": x["c"] = r.choice([0, 10, 65, 127, 128, 255])
        elif n in ("gets", "puts"):
            x["e"] = r.choice(["", "", "UTF-8", "ISO-8859-1"]) if n == "gets" else self.enc()
            if n == "puts": x["t"] = self.text(x["e"])
        elif n == "seek": x.update(o=r.choice([0, 0, 1, 2, 3, 5, 10, 30, -1, -2, -3]), w=r.choice([0, 1, 2, 2, 1, 0, 9]))
        elif n == "close" and h and h <= len(self.h): self.h[h - 1]["open"] = False
        return x

    def fop(self):
        r = self.r
        n = r.choice(["loadS", "storeS", "storeS", "appS", "loadD", "loadD", "storeD", "appD", "badS", "badD", "unlink", "rmdir", "mkdir", "mkdir", "rename", "rename", "chmod",
                      "stat", "stat", "real", "list", "names", "encode", "decode", "buf", "gc"])
        x = {"n": n}
        if n == "buf": x.update(b=r.randint(1, 4), v=[r.choice([r.randint(0, 255), r.randint(32, 126), 10, 195, 169]) for _ in range(r.choice([0, 1, 2, 3, 8, 17]))])
        elif n == "names": x["t"] = [r.choice(["/", "/", "a", ".", "b"]) for _ in range(r.randint(0, 7))]
        if n == "names" and x["t"][:2] == ["/", "/"]: x["t"] = ["a"] + x["t"]      # two leading slashes mean what the system wants
        if n in ("buf", "names"): pass
        elif n == "encode":
            x.update(e=self.enc(), b=r.choice([0, 1, 2, 3, 4]), a=r.choice([[], [0], [1], [-1], [-3], [7], [8], [100], [-100]]))
            if x["b"] == 0: x["a"] = []
            elif x["e"] == "": x["e"] = "UTF-8"
            x["t"] = self.text(x["e"])
        elif n == "decode": x.update(e=r.choice(ENC[2:]), b=r.randint(1, 4), a=r.choice([[], [0], [1], [-1], [2], [0, 4], [1, 3], [3, 1], [-4, -2], [0, 0], [8], [99], [0, 99], [-100, 2], [-2, 99]]))
        elif n != "gc":
            kind = {"loadS": "f", "loadD": "f", "appS": "f", "appD": "f", "storeD": "f", "storeS": "f", "unlink": "f", "rmdir": "d", "list": "d"}.get(n)
            p = self.fresh() if n == "mkdir" or (n in ("storeS", "storeD", "appS", "appD") and r.random() < 0.5) else self.known(kind)
            if p == [] and n in ("rmdir", "unlink", "rename", "mkdir", "chmod"): return {"n": "gc"}
            if n in ("loadS", "storeS", "appS", "loadD", "storeD", "appD", "badS", "badD", "stat") and self.busy(p): return {"n": "real", "p": p}
            x["p"] = p
            if n in ("loadS", "storeS", "appS"):
                x["e"] = self.enc()
                if n != "loadS":
                    x["t"] = self.text(x["e"])
                    self.make(p, "f")
            elif n in ("storeD", "appD"):
                x.update(b=r.randint(1, 4), a=self.arg())
                if not (x["a"] and x["a"][0] < 0): self.make(p, "f")
            elif n == "badS": x["k"] = r.randrange(7)
            elif n == "badD": x["k"] = r.randrange(16)
            elif n == "mkdir": self.make(p, "d")
            elif n == "unlink":
                if self.fs.get(tuple(p), "d")[0] == "f": del self.fs[tuple(p)]
            elif n == "rmdir":
                t = tuple(p)
                if self.fs.get(t, "f")[0] == "d" and not any(len(q) > len(t) and q[:len(t)] == t for q in self.fs): del self.fs[t]
            elif n == "chmod": x["m"] = r.choice([0o600, 0o644, 0o755, 0o777, 0o700])
            elif n == "list": x["how"] = r.randrange(4)
            elif n == "rename":
                x["q"] = q = self.fresh() if r.random() < 0.6 else self.known()
                if q == []: return {"n": "gc"}
                self.ren(tuple(p), tuple(q))
        return x

    def ren(self, p, q):
        fs = self.fs
        if p not in fs or q[:-1] not in fs or fs[q[:-1]][0] != "d" or p == q or q[:len(p)] == p: return
        if q in fs and (fs[q][0] != fs[p][0] or (fs[q][0] == "d" and any(len(x) > len(q) and x[:len(q)] == q for x in fs))): return
        self.fs = {k: v for k, v in fs.items() if k != q and k[:len(p)] != p}
        self.fs.update({q + k[len(p):]: v for k, v in fs.items() if k[:len(p)] == p})

    def prog(self, n):
        self.fs, self.h, self.i = {(): ("d", 0)}, [], 0
        ops = [self.op() for _ in range(n)]
        for i, h in enumerate(self.h):
            if h["open"]: ops.append({"n": "close", "h": i + 1})
        for p, v in sorted(self.fs.items()): ops.append({"n": "loadD", "p": list(p)} if v[0] == "f" else {"n": "list", "p": list(p), "how": 1})
        return {"c": 0, "ops": ops}

    def big(self):
        """blocks around the size of a stream's buffer"""
        r = self.r
        self.fs, self.h, self.i = {(): ("d", 0)}, [], 0
        n = r.choice([4095, 4096, 4097, 1500])
        ops = [{"n": "buf", "b": 1, "v": [(i * 7 + n) % 256 for i in range(n)]}, {"n": "buf", "b": 2, "v": [0] * 50}, {"n": "open", "p": ["a"], "m": "w+"}]
        for _ in range(r.randint(4, 10)):
            ops.append(r.choice([{"n": "write", "h": 1, "b": 1, "a": r.choice([[], [1], [100, 3000]])}, {"n": "read", "h": 1, "b": 2, "a": r.choice([[], [3], [10, 20]])},
                                 {"n": "seek", "h": 1, "o": r.choice([0, 4090, 4096, 10]), "w": 0}, {"n": "seek", "h": 1, "o": r.choice([-5, -4096, 0]), "w": r.choice([1, 2])},
                                 {"n": "putc", "h": 1, "c": 1}, {"n": "getc", "h": 1}, {"n": "puts", "h": 1, "e": "", "t": [97, 10, 98]}, {"n": "tell", "h": 1}]))
        return {"c": 0, "ops": ops + [{"n": "close", "h": 1}, {"n": "stat", "p": ["a"]}, {"n": "loadD", "p": ["a"]}]}
