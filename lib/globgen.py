"""Histories for spec/GlobalEnv.tla."""
import itertools
NAMES = ["x", "x", "x", "y", "y", "z", "toString", "NaN", "Array"]


class Gen:
    def __init__(self, r): self.r, self.id = r, 0

    def val(self):
        self.id += 1
        return self.r.choice([["i", self.id], ["i", self.id], ["u"], ["f", self.id], ["c", self.id]])

    def body(self, strict, depth=0):
        r = self.r
        kind = {}
        b = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            n = r.choice(NAMES)
            self.id += 1
            x = r.random()
            if x < 0.62:
                k = kind.get(n)
                d = r.choice(["var", "var", "let", "const", "class", "fun", "fun"])
                if k == "lex" or (k == "var" and d in ("let", "const", "class")): continue
                kind[n] = "lex" if d in ("let", "const", "class") else "var"
                if d in ("class", "fun"): b.append([d, n, self.id])
                elif d == "const": b.append([d, n, self.val()])
                else: b.append([d, n, self.val() if r.random() < 0.7 else []])
            elif x < 0.72: b.append(["set", n, self.val()])
            elif x < 0.8: b.append(["get", n])
            elif x < 0.84: b.append(["type", n])
            elif x < 0.9 and not strict: b.append(["del", n])
            elif x < 0.98 and depth == 0:
                k = r.choice(["eval", "eval", "ieval"])
                b.append([k, "", self.body(strict and k == "eval", 1)])
            elif x > 0.985: b.append(["throw", ""])
        return b

    def op(self):
        r = self.r
        x = r.random()
        n = r.choice(NAMES)
        self.id += 1
        f = lambda p: r.random() < p
        if x < 0.7:
            strict = f(0.25)
            return {"n": "script", "strict": strict, "b": self.body(strict)}
        if x < 0.85:
            c = f(0.5) or n in ("NaN",)
            d = ["d", self.val(), f(0.6), f(0.6), c] if f(0.65) else ["a", self.id, f(0.6), f(0.5), c]
            return {"n": "define", "name": n, "d": d}
        if x < 0.92: return {"n": "delete", "name": n}
        if x < 0.985: return {"n": "set", "name": n, "v": self.val()}
        return {"n": "prevent"}

    def prog(self, n): return {"c": 0, "ops": [self.op() for _ in range(n)]}


def alphabet():
    """every operation on one name"""
    i = [0]

    def nx(): i[0] += 1; return i[0]
    sc = lambda b, strict=False: {"n": "script", "strict": strict, "b": b}
    l = []
    for k in ("var", "let", "const", "fun", "class"):
        l.append(lambda k=k: sc([[k, "x", nx() if k in ("fun", "class") else ["i", nx()]]]))
    l.append(lambda: sc([["var", "x", []]]))
    l.append(lambda: sc([["throw", ""], ["let", "x", ["i", nx()]]]))
    l.append(lambda: sc([["throw", ""], ["var", "x", ["i", nx()]], ["let", "y", ["i", 1]]]))
    l.append(lambda: sc([["fun", "y", nx()], ["let", "x", ["i", nx()]]]))
    l.append(lambda: sc([["let", "y", ["i", nx()]], ["fun", "x", nx()]]))
    l.append(lambda: sc([["eval", "", [["var", "x", ["i", nx()]]]]]))
    l.append(lambda: sc([["eval", "", [["fun", "x", nx()]]]]))
    l.append(lambda: sc([["ieval", "", [["let", "x", ["i", nx()]]]], ["type", "x"]]))
    l.append(lambda: sc([["ieval", "", [["fun", "x", nx()], ["var", "y", ["i", 2]]]]], True))
    l.append(lambda: sc([["eval", "", [["var", "x", ["i", nx()]]]], ["type", "x"]], True))
    l.append(lambda: sc([["del", "x"]]))
    l.append(lambda: sc([["set", "x", ["i", nx()]]]))
    l.append(lambda: sc([["set", "x", ["i", nx()]]], True))
    l.append(lambda: {"n": "delete", "name": "x"})
    l.append(lambda: {"n": "set", "name": "x", "v": ["i", nx()]})
    l.append(lambda: {"n": "prevent"})
    for d in (["d", True, True, False], ["d", True, False, False], ["d", False, True, False], ["d", False, False, True], ["d", True, True, True], ["a", True, True, False], ["a", False, False, True]):
        l.append(lambda d=d: {"n": "define", "name": "x", "d": [d[0], ["i", nx()] if d[0] == "d" else nx()] + d[1:]})
    return l


def family(n, r=None, cap=None):
    a = alphabet()
    seqs = list(itertools.product(range(len(a)), repeat=n))
    if cap and len(seqs) > cap: seqs = r.sample(seqs, cap)
    return [{"c": 0, "ops": [a[k]() for k in s]} for s in seqs]
