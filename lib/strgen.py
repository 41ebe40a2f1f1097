"""Histories for spec/StrOps.tla."""
import itertools
ALPHA = [[97, 98], [97, 97, 98], [97, 98, 65, 48, 49, 32], [97, 0x3b1, 233, 0xffff, 0], [0xd83d, 0xde00, 97, 0xd800, 0xdfff, 0xdbff, 0xdc00],
         [9, 10, 32, 160, 0xfeff, 0x2028, 0x3000, 97, 0x200b, 0x180e], [36, 38, 96, 39, 97, 49, 60, 62], [48, 49, 50, 57], [108, 101, 110, 103, 116, 104]]
INTS = [-100, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 8, 20, 100]


class Gen:
    def __init__(self, r): self.r = r

    def units(self, hi=8):
        r = self.r
        al = r.choice(self.al)
        if r.random() < 0.05: return [108, 101, 110, 103, 116, 104]
        return [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 4, r.randint(0, hi)]))]

    def num(self):
        r = self.r
        x = r.random()
        if x < 0.85: return ["i", r.choice(INTS)]
        if x < 0.9: return ["u"]
        return ["x", r.choice(["Infinity", "-Infinity", "NaN", "1.5", "-1.5", "-0"])]

    def op(self):
        r = self.r
        ref = lambda: r.choice([r.randint(1, 4), r.randint(1, 40)])
        n = r.choice(["lit", "plus", "plus", "concat", "tmpl", "join", "concat3", "slice", "slice", "substring", "substring", "at", "charAt", "charCodeAt",
                      "codePointAt", "index", "length", "indexOf", "indexOf", "lastIndexOf", "lastIndexOf", "includes", "startsWith", "endsWith", "padStart",
                      "padEnd", "repeat", "split", "split", "replace", "replace", "replaceAll", "replaceAll", "trim", "trimStart", "trimEnd", "fromCodePoint",
                      "fromCharCode", "iter", "lower", "upper", "cmp", "cmp", "own", "setkey", "getkey", "getkey", "same"])
        x = {"n": n, "s": ref()}
        if n == "lit": x["u"] = self.units(12)
        if n in ("plus", "concat", "tmpl", "join", "concat3", "indexOf", "lastIndexOf", "includes", "startsWith", "endsWith", "replace", "replaceAll", "cmp", "own"):
            x["t"] = ref()
        if n in ("padStart", "padEnd", "split") and r.random() < 0.8: x["t"] = ref()
        if n in ("concat3", "replace", "replaceAll"): x["v"] = ref()
        if n in ("replace", "replaceAll"): x["fn"] = r.random() < 0.25
        k = {"slice": 2, "substring": 2, "substr": 2, "at": 1, "charAt": 1, "charCodeAt": 1, "codePointAt": 1, "index": 1, "indexOf": 1, "lastIndexOf": 1,
             "includes": 1, "startsWith": 1, "endsWith": 1, "split": 1}.get(n, 0)
        x["a"] = [self.num() for _ in range(r.choice([k, k, k, max(k - 1, 0), 0]))]
        if n == "index": x["a"] = [self.num() for _ in range(1)]
        if n == "index" and x["a"][0][0] != "i": x["a"] = [["i", 0]]
        if n in ("padStart", "padEnd"): x["a"] = [r.choice([["i", r.randint(-2, 25)], ["x", "1.5"], ["u"]])]
        if n == "repeat": x["a"] = [r.choice([["i", r.choice([0, 1, 2, 3, 5, -1])], ["x", "Infinity"], ["x", "1.5"], ["x", "NaN"], ["x", "-0"]])]
        if n == "fromCodePoint": x["u"] = [r.choice([97, 0, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd800, 0xdc00] + ([0x110000, -1] if r.random() < 0.1 else [])) for _ in range(r.randint(0, 4))]
        if n == "fromCharCode": x["u"] = [r.choice([97, 0, 65535, 65536, 65633, 0xd83d, 0xde00]) for _ in range(r.randint(0, 4))]
        if n == "setkey": x["k"] = r.randint(1, 99)
        return x

    def prog(self, n):
        self.al = [self.r.choice(ALPHA) for _ in range(self.r.choice([1, 1, 2, 4]))]
        return {"c": [self.units() for _ in range(self.r.randint(1, 4))], "ops": [self.op() for _ in range(n)]}


def family(r, k):
    """searches over all short strings of two letters; trims and slices with all small positions"""
    out = []
    words = [list(w) for n in range(4) for w in itertools.product([97, 98], repeat=n)]
    pats = [w for w in words if len(w) < 3]
    idx = [["i", i] for i in (-9, -2, -1, 0, 1, 2, 3, 4, 9)] + [["u"], ["x", "NaN"], ["x", "Infinity"], ["x", "-Infinity"]]
    for w in words:
        for p in pats:
            ops = [{"n": m, "s": 1, "t": 2, "a": [i]} for m in ("indexOf", "lastIndexOf", "includes", "startsWith", "endsWith") for i in idx]
            ops += [{"n": m, "s": 1, "t": 2, "a": []} for m in ("indexOf", "lastIndexOf", "includes", "startsWith", "endsWith", "split")]
            ops += [{"n": "split", "s": 1, "t": 2, "a": [i]} for i in idx]
            ops += [{"n": "cmp", "s": 1, "t": 2, "a": []}, {"n": "cmp", "s": 2, "t": 1, "a": []}]
            out.append({"c": [w, p], "ops": ops})
        out.append({"c": [w], "ops": [{"n": m, "s": 1, "a": [i, j]} for m in ("slice", "substring") for i in idx for j in idx]})
    tmpl = [list(map(ord, t)) for t in ("$$", "$&", "$`", "$'", "$", "$1", "$0", "$<a>", "x$$y$&z", "$$$", "$$&", "$`$'")]
    for w in words:
        for p in pats:
            for t in r.sample(tmpl, k):
                out.append({"c": [w, p, t], "ops": [{"n": m, "s": 1, "t": 2, "v": 3, "fn": f, "a": []} for m in ("replace", "replaceAll") for f in (False, True)]})
    return out
