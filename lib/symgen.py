"""Histories for spec/SymTpl.tla."""
KEYS = ["", "a", "b", "iterator", "Symbol.iterator", "undefined"]
WELL = ["iterator", "asyncIterator", "hasInstance", "toPrimitive", "species", "unscopables", "toStringTag", "match", "matchAll", "replace", "search", "split", "isConcatSpreadable"]
C = lambda t: [ord(c) for c in t]
GOOD = [C("a"), C("xy"), [10], [13], [13, 10], C("\\n"), C("\\t"), C("\\\\"), C("\\`"), C("\\$"), C("$"), C("{"), C("}"), C("$ {"), C("'"), C('"'), C("\\'"), C("\\x41"), C("\\xe9"), C("\\u0041"),
        C("\\u{41}"), C("\\u{000041}"), C("\\u{1F600}"), C("\\ud83d"), C("\\uDE00"), C("\\0"), C("\\0a"), C("\\v\\f\\b\\r"), [92, 10], [92, 13], [92, 13, 10], C("\\q"), C("\\{"), C("//"), C("/*"), C("\\u{10FFFF}"), C("\\-"), [233], C("$$")]
BAD = [C("\\1"), C("\\01"), C("\\8"), C("\\9"), C("\\x"), C("\\x4"), C("\\x4g"), C("\\u"), C("\\u12"), C("\\u12g4"), C("\\u{"), C("\\u{}"), C("\\u{110000}"), C("\\u{4g}"), C("\\u{ffffffffff}"), C("\\u{11000000000000000041}"), C("\\u{110000000041}"), C("\\u{41"), C("\\00"), C("\\08")]


class Gen:
    def __init__(self, r): self.r = r

    def piece(self, bad):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            x = r.choice(BAD) if r.random() < bad else r.choice(GOOD)
            # never an accidental ${ across the border
            if out and out[-1] == 36 and x[:1] == [123]: continue
            out += x
        if out and out[-1] == 36 and (len(out) < 2 or out[-2] != 92): out += C(".")       # a $ before a substitution is written apart
        return out

    def site(self, bad=0.12): return [self.piece(bad) for _ in range(self.r.choice([1, 1, 2, 2, 3, 4]))]

    def op(self):
        r = self.r
        x = r.random()
        realm, alt = r.randint(0, 2), r.random() < 0.3
        if x < 0.1: return {"n": "symbol", "realm": realm, "d": r.choice([[], [""], ["a"], ["desc"]])}
        if x < 0.22: return {"n": "for", "realm": realm, "k": r.choice(KEYS)}
        if x < 0.27: return {"n": "well", "realm": realm, "k": r.choice(WELL)}
        if x < 0.45: return {"n": r.choice(["keyFor", "descr", "str"]), "realm": realm, "i": r.randint(0, 12), "alt": alt}
        if x < 0.56: return {"n": r.choice(["put", "put", "get", "del"]), "realm": realm, "i": r.randint(0, 12), "v": r.randint(0, 99), "alt": alt}
        if x < 0.58: return {"n": "keys"}
        if x < 0.62: return {"n": "gc"}
        if x < 0.7: return {"n": "fun", "realm": realm, "shape": r.randint(0, 6), "factory": r.choice([0, 0, 1, 2]), "sites": self.sites()}
        if x < 0.75: return {"n": "closure", "f": r.randint(0, 4)}
        if x < 0.92: return {"n": "call", "f": r.randint(0, 4), "k": r.randint(1, 3), "c": r.randint(0, 5)}
        return {"n": "plain", "realm": realm, "site": self.site(0.2)}

    def sites(self):
        a = [self.site() for _ in range(self.r.randint(1, 3))]
        if self.r.random() < 0.5: a.append(a[0])         # the same text at another place is another site
        return a[:3]

    def prog(self, n): return {"c": 0, "ops": [self.op() for _ in range(n)]}
