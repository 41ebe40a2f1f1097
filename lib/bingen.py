"""Operation sequences for spec/BinOps.tla."""
from numgen import enc, big
KINDS = ["I8", "U8", "C8", "I16", "U16", "I32", "U32", "B64", "V64", "F32", "F64"]
BIG = ("B64", "V64")


def flt(n, m, e):
    if not m: return ["f", n, [], 0]
    while m % 2 == 0:
        m //= 2; e += 1
    return ["f", n, enc(m)["m"], e]


def num(r):
    x = r.random()
    n = r.random() < 0.4
    if x < 0.1: return ["x", r.choice(["NaN", "Infinity", "-Infinity"])]
    if x < 0.2: return flt(n, 0, 0)
    if x < 0.4: return flt(n, r.choice([1, 2, 3, 5, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536]), 0)
    if x < 0.55: return flt(n, r.choice([1, 3, 5, 7, 253, 255, 507, 509, 511, 1021]), -1)                         # halves
    if x < 0.7: return flt(n, (1 << r.choice([7, 8, 15, 16, 24, 25, 31, 32, 33, 52])) + r.choice([-1, 0, 1]), r.choice([0, 0, 0, 1, 8, 20, 31, 32]))
    if x < 0.78: return flt(n, r.getrandbits(53), r.choice([-60, -52, -40, -20, -3, 0, 5, 11, 12, 30, 70]))
    if x < 0.88:                                                                                               # around float32's rounding points and limits
        m = (1 << 24 | r.getrandbits(24)) * 2 + r.choice([0, 1, 1])
        m = (m << 3) + r.choice([-1, 0, 0, 1])
        return flt(n, m, r.choice([-180, -178, -177, -176, -175, -160, -154, -153, -100, 0, 50, 99, 100, 101]))
    if x < 0.94: return flt(n, r.getrandbits(r.choice([1, 5, 30, 52])) | 1, -1074)
    return flt(n, (1 << 53) - 1 - r.choice([0, 0, 1, 5]), r.choice([971, 970, 900]))


class Gen:
    def __init__(self, r): self.r = r

    def val(self, bigk, det=0.05, any=0.06):
        r = self.r
        b = bigk if r.random() > any else not bigk
        v = ["n", enc(big(r, r.choice([1, 8, 31, 32, 33, 63, 64, 65, 100])))] if b else (num(r) if r.random() > 0.04 else ["u"])
        return ["d", v, r.randint(0, 9)] if r.random() < det else v

    def ix(self, n, opt=0.25, det=0.04):
        r = self.r
        x = r.random()
        v = ["u"] if x < opt else ["x", r.choice(["Infinity", "-Infinity", "NaN", "1.5", "-1.5", "-0.5"])] if x < opt + 0.06 else ["i", r.randint(-n - 1, n + 2) if r.random() < 0.6 else r.randint(0, n)]
        return ["d", v, r.randint(0, 9)] if v[0] != "u" and r.random() < det else v

    def key(self, n):
        r = self.r
        return ["x", r.choice(["-0", "1.5", "Infinity", "-1", "NaN", "1e+21"])] if r.random() < 0.08 else ["i", r.randint(0, n) if r.random() < 0.9 else r.choice([-1, 100, 1000000])]

    def op(self, kinds):
        r = self.r
        x = {"n": r.choice(["view"] * 5 + ["buf", "ofview", "oflist", "ofLen", "bslice", "bslice"] + ["get"] * 4 + ["set"] * 8 + ["has", "del", "desc", "def", "def", "keys", "lens"] + ["dvget"] * 5 + ["dvset"] * 6
                           + ["setv"] * 5 + ["setl"] * 3 + ["subarray"] * 3 + ["slice"] * 3 + ["copyWithin"] * 4 + ["fill"] * 4 + ["reverse", "toReversed", "map", "with", "at", "at"]
                           + ["indexOf", "indexOf", "includes", "includes", "lastIndexOf", "lastIndexOf"] + ["detach"] * (r.random() < 0.25)),
             "v": r.randint(0, 8) if r.random() < 0.8 else 0, "b": r.randint(0, 4), "slot": r.randint(0, 7)}
        n = x["n"]
        k = r.choice(KINDS)
        x["val"] = self.val(r.random() < 0.25)
        kinds.append(n)
        if n == "buf": x.update(len=r.choice([0, 1, 3, 8, 12, 16, 24]), sh=r.random() < 0.25)
        elif n == "view":
            x["k"] = r.choice([k, k, k, "DV"])
            sz = {"8": 1, "6": 2, "2": 4, "4": 8}[x["k"][-1]] if x["k"] != "DV" else 1
            if x["k"] == "DV" or r.random() < 0.2: x["o"], x["l"] = self.ix(12), self.ix(10, 0.4)
            else: x["o"], x["l"] = r.choice([["u"], ["i", sz * r.randint(0, 16 // sz)]]), r.choice([["u"], ["i", r.randint(0, 16 // sz)], ["i", r.randint(0, 3)]])
        elif n in ("ofview",): x["k"] = k
        elif n == "oflist": x.update(k=k, vs=[self.val(k in BIG, 0.03, 0.02) for _ in range(r.randint(0, 4))])
        elif n == "ofLen": x.update(k=k, len=r.randint(0, 4))
        elif n == "bslice": x.update(p=self.ix(12), q=self.ix(12))
        elif n in ("dvget", "dvset"):
            k = r.choice([k for k in KINDS if k != "C8"])
            x.update(k=k, o=self.ix(12, 0.05), le=r.random() < 0.5, val=self.val(k in BIG))
        elif n in ("get", "set", "has", "del", "desc", "def"): x.update(key=self.key(6), bad=r.random() < 0.25)
        elif n == "setv": x.update(w=r.randint(0, 8), o=self.ix(4, 0.4))
        elif n == "setl":
            bg = r.random() < 0.25
            x.update(w=0, vs=[self.val(bg, 0.04, 0.03) for _ in range(r.randint(0, 4))], o=self.ix(4, 0.3))
        else: x.update(p=self.ix(6, 0.05 if n in ("at", "with") else 0.2), q=self.ix(6), z=self.ix(6, 0.4))
        if n in ("indexOf", "includes", "lastIndexOf"):
            if x["val"][0] == "d": x["val"] = x["val"][1]
            if r.random() < 0.5: x["val"] = r.choice([flt(False, 0, 0), flt(True, 0, 0), flt(False, 255, 0), flt(True, 1, 0), ["x", "NaN"], ["u"], ["n", enc(0)], ["n", enc(-1)], flt(False, 1, 0)])
        return x

    def prog(self, n):
        r = self.r
        ks = []
        ops = [{"n": "view", "v": 0, "b": 0, "slot": 0, "k": r.choice(KINDS + ["DV", "F32", "F64"]), "o": ["u"], "l": ["u"]} for _ in range(r.randint(1, 4))]
        return {"c": {"len": r.choice([8, 12, 16, 16, 24])}, "ops": ops + [self.op(ks) for _ in range(n)]}
