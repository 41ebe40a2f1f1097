"""Histories for spec/Realms.tla."""
import re, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = open(os.path.join(ROOT, "spec", "Realms.tla")).read()


def names(op):
    m = re.search(r"^" + op + r" == \[(.*?)\]\s*$", T, re.M | re.S)
    return re.findall(r"(\w+) \|->", m.group(1))


LANG, LANGERR, ERR, MAKE = names("Lang"), names("LangErr"), names("BuiltinErr"), names("Makes")
CTORS = ["Object", "Array", "Function", "Error", "TypeError", "AggregateError", "Map", "Set", "WeakMap", "WeakSet", "WeakRef", "FinalizationRegistry", "Promise", "Date", "RegExp", "Boolean", "Number", "String",
         "ArrayBuffer", "SharedArrayBuffer", "Uint8Array", "Float64Array", "DataView", "GeneratorFunction", "AsyncFunction", "AsyncGeneratorFunction", "fn", "cls", "ctor"]
KS = ["Array", "Object", "String", "Number", "Function", "Map"]


class Gen:
    def __init__(self, r): self.r = r

    def target(self, depth=0):
        r = self.r
        rl = r.randint(0, 2)
        if depth > 2 or r.random() < 0.45: return ["f", rl, r.choice(["obj", "none", "none"]), r.randint(1, 50), r.choice([0, 0, 1, 2])]
        return [r.choice(["bound", "proxy", "proxy", "revoked"]) if depth < 2 else "proxy", rl, self.target(depth + 1)]

    def op(self):
        r = self.r
        a, b, d, way = r.randint(0, 2), r.randint(0, 2), r.randint(0, 2), r.randint(0, 9)
        x = r.random()
        if x < 0.3: return {"n": "new", "c": r.choice(CTORS), "a": a, "d": d, "t": self.target()}
        if x < 0.4: return {"n": "lang", "k": r.choice(LANG), "a": a, "d": d, "way": way}
        if x < 0.5: return {"n": "langerr", "k": r.choice(LANGERR), "a": a, "d": d, "way": way}
        if x < 0.62: return {"n": "err", "k": r.choice(ERR), "a": a, "b": b, "d": d, "way": way}
        if x < 0.76: return {"n": "make", "k": r.choice(MAKE), "a": a, "b": b, "d": d, "way": way}
        if x < 0.79: return {"n": "this", "a": a, "d": d, "way": way, "null": r.random() < 0.5}
        if x < 0.84: return {"n": "setvar", "a": a, "k": r.choice("xy"), "v": r.randint(1, 99), "how": r.randint(0, 3)}
        if x < 0.9: return {"n": "getvar", "a": a, "k": r.choice("xy"), "how": r.randint(0, 2)}
        if x < 0.94: return {"n": "patch", "a": a, "k": r.choice(KS), "v": r.randint(1, 99), "how": r.randint(0, 1)}
        if x < 0.97: return {"n": "probe", "a": a, "b": b, "k": r.choice(KS), "how": r.randint(0, 1)}
        if x < 0.99: return {"n": "prim", "a": a, "k": r.choice(KS[:4])}
        return {"n": "symbol", "a": a, "b": b, "k": r.choice("pq")}

    def prog(self, n): return {"c": 0, "ops": [self.op() for _ in range(n)]}


def everything():
    """every table entry with two realms, every way"""
    out = []
    for n, l in (("lang", LANG), ("langerr", LANGERR), ("err", ERR), ("make", MAKE)):
        for k in l:
            out.append({"c": 0, "ops": [{"n": n, "k": k, "a": a, "b": b, "d": d, "way": w} for a, b, d, w in [(1, 2, 0, w) for w in range(10)] + [(0, 1, 2, 0), (2, 2, 1, 1)]]})
    for c in CTORS:
        T = [["f", 2, "obj", 1, 0], ["f", 2, "none", 1, 0], ["bound", 0, ["f", 2, "obj", 1, 0]], ["proxy", 0, ["f", 2, "none", 2, 0]], ["proxy", 0, ["f", 2, "obj", 2, 0]], ["revoked", 0, ["f", 2, "obj", 2, 0]],
             ["bound", 0, ["revoked", 0, ["f", 2, "obj", 2, 0]]], ["proxy", 1, ["bound", 0, ["f", 2, "obj", 2, 0]]], ["bound", 1, ["proxy", 0, ["f", 2, "obj", 2, 0]]], ["f", 1, "none", 0, 0]]
        out.append({"c": 0, "ops": [{"n": "new", "c": c, "a": 1, "d": 0, "t": t} for t in T]})
    return out
