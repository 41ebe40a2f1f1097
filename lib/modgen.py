"""Histories for spec/Modules.tla."""
NAMES = ["a", "ab", "abc", "abd", "version", "verbose", "very", "out", "output", "x-y", "n", "on"]
ABBRS = ["a", "v", "o", "n", "z", "V", "%"]
KEYS = [[97], [98], [97, 98], [], [47], [126], [126, 49], [97, 47, 98], [126, 48], [48], [49], [45], [116, 111, 83, 116, 114, 105, 110, 103], [0x1F600], [32], [108, 101, 110, 103, 116, 104],
        [95, 95, 112, 114, 111, 116, 111, 95, 95], [99], [97, 97], [98, 97]]
PLAIN = [[97], [98], [97, 98], [97, 97], [98, 97], [99], [116, 111, 83, 116, 114, 105, 110, 103], [], [0x1F600]]


class Gen:
    def __init__(self, r): self.r = r

    # options
    def table(self):
        r = self.r
        names = r.sample(NAMES, r.randint(1, 6))
        abbrs = r.sample([a for a in ABBRS if a not in names], r.randint(0, 4))
        T = []
        for i in range(max(len(names), len(abbrs))):
            n = names[i] if i < len(names) and (r.random() < 0.9 or i >= len(abbrs)) else ""
            a = abbrs[i] if i < len(abbrs) else ""
            k = r.choice(["none", "none", "boolean", "string", "number", "integer", "list", "map"])
            arg = [k]
            if k == "list": arg.append(r.sample(["red", "Red", "blue", "a", "-v"], r.randint(1, 3)))
            if k == "map": arg.append([[x, r.randint(-3, 9) * 10] for x in r.sample(["RED", "BLUE", "A"], r.randint(1, 3))])
            d = ["u"]
            if k != "none" and r.random() < 0.35:
                d = {"boolean": ["b", r.random() < 0.5], "string": ["s", "dflt"], "number": ["n", 25], "integer": ["n", 70], "list": ["s", "a"], "map": ["n", 10]}[k]
            T.append({"name": n, "abbr": a, "arg": arg, "def": d})
        return T

    def val(self, T):
        r = self.r
        dec = not any(d["arg"][0] == "integer" for d in T)
        return r.choice(["true", "YES", "no", "False", "0", "1", "12", "-3", "0", "red", "RED", "blue", "a", "A", "b", "file.txt", "maybe", "x=y"] + (["1.5", "-0.5"] if dec else []))

    def words(self, T):
        r = self.r
        out = []
        for _ in range(r.randint(0, 7)):
            d = r.choice(T)
            x = r.random()
            if d["name"] and x < 0.6:
                n = d["name"] if r.random() < 0.6 else d["name"][:r.randint(1, len(d["name"]))]
                w = "--" + n
                if r.random() < 0.5: w += "=" + self.val(T)
                out.append(w)
            elif d["abbr"] and x < 0.8:
                out.append("-" + d["abbr"] + (self.val(T) if r.random() < 0.5 else ""))
            elif x < 0.93: out.append(self.val(T))
            else: out.append(r.choice(["-", "--", "--=x", "--zz", "-q", "--q=1", "-" + r.choice(NAMES)[0], "--" + r.choice(ABBRS), "", "--a b"]))
            if out[-1].startswith("-") and r.random() < (0.6 if "=" not in out[-1] and d["arg"][0] != "none" else 0.1): out.append(self.val(T))
        return out

    # values
    def value(self, d=3, keys=KEYS):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.3:
            ks = r.sample(range(len(keys)), r.randint(0, min(4, len(keys))))
            return ["o", [[keys[k], self.value(d - 1, keys)] for k in ks]]
        if d > 0 and x < 0.5: return ["a", [self.value(d - 1, keys) for _ in range(r.randint(0, 4))]]
        return r.choice([["z"], ["b", True], ["b", False], ["h", r.randint(-6, 12)], ["h", 2 * r.randint(-3, 6)], ["s", [r.choice([97, 98, 99]) for _ in range(r.randint(0, 3))]], ["s", [0x1F600] * r.randint(1, 2)], ["h", 0]])

    def near(self, v, keys=PLAIN):
        """v with one thing changed, perhaps"""
        r = self.r
        if r.random() < 0.3: return v
        if v[0] == "a" and v[1] and r.random() < 0.8:
            l = list(v[1])
            i = r.randrange(len(l))
            x = r.random()
            if x < 0.5: l[i] = self.near(l[i], keys)
            elif x < 0.65: l.insert(i, r.choice(l))
            elif x < 0.8: del l[i]
            else: l.append(self.value(1, keys))
            return ["a", l]
        if v[0] == "o" and v[1] and r.random() < 0.8:
            l = [list(p) for p in v[1]]
            i = r.randrange(len(l))
            x = r.random()
            if x < 0.5: l[i][1] = self.near(l[i][1], keys)
            elif x < 0.6: del l[i]
            elif x < 0.8: r.shuffle(l)
            else:
                k = r.choice(keys)
                if all(p[0] != k for p in l): l.append([k, self.value(1, keys)])
            return ["o", self.canon(l)]
        return self.value(2, keys)

    @staticmethod
    def canon(l): return l

    def pointer(self, v):
        r = self.r
        p = []
        def esc(k):
            o = []
            for c in k: o += [126, 48] if c == 126 else [126, 49] if c == 47 else [c]
            return o
        while True:
            if v[0] == "o" and v[1] and r.random() < 0.9:
                k, v = r.choice(v[1])
                p += [47] + esc(k)
            elif v[0] == "a" and v[1] and r.random() < 0.9:
                i = r.randrange(len(v[1]))
                v = v[1][i]
                p += [47] + [ord(c) for c in str(i)]
            else: break
            if r.random() < 0.1: break
        if r.random() < 0.3:
            p += [47] + esc(r.choice(KEYS + [[48, 48], [48, 49], [49, 48], [57], [45, 49], [49, 46, 48], [49, 97]]))
        return p

    # schemas
    def pat(self):
        r = self.r
        return [{"c": r.sample([97, 98, 99], r.randint(1, 3)), "st": r.random() < 0.4} for _ in range(r.randint(0, 3))]

    def keyword(self, d, v):
        """a keyword that has something to do with v"""
        r = self.r
        sub = lambda w=None: self.schema(d - 1, w)
        gen = ["type", "type", "enum", "const"] + (["allOf", "anyOf", "oneOf", "not", "if"] if d > 0 else [])
        own = {"h": ["multipleOf", "maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum"], "s": ["maxLength", "minLength", "pattern"],
               "a": ["maxItems", "minItems", "uniqueItems"] + (["prefixItems", "items", "unevaluatedItems", "contains", "contains"] if d > 0 else []),
               "o": ["maxProperties", "minProperties", "required", "dependentRequired"] + (["properties", "properties", "patternProperties", "additionalProperties", "unevaluatedProperties", "propertyNames", "dependentSchemas"] if d > 0 else [])}
        k = r.choice(own[v[0]]) if v[0] in own and r.random() < 0.75 else r.choice(gen + (r.choice(list(own.values())) if r.random() < 0.3 else []))
        n = lambda: r.randint(-2, 6) if v[0] != "h" else v[1] + r.choice([-1, 0, 0, 1, 2])
        ln = lambda: max(0, (len(v[1]) if v[0] in "sao" else 2) + r.choice([-1, 0, 0, 1]))
        vk = [p[0] for p in v[1]] if v[0] == "o" else []
        key = lambda: r.choice(vk) if vk and r.random() < 0.7 else r.choice(PLAIN)
        elem = lambda: r.choice(v[1]) if v[0] == "a" and v[1] else None
        prop = lambda kk: next((p[1] for p in v[1] if p[0] == kk), None) if v[0] == "o" else None
        def keys(m):
            out = []
            for _ in range(r.randint(1, m)):
                x = key()
                if x not in out: out.append(x)
            return out
        if k == "type": return k, r.sample(["null", "boolean", "number", "integer", "string", "array", "object"], r.choice([1, 1, 2, 3])) if r.random() < 0.3 else [r.choice({"z": ["null"], "b": ["boolean"], "h": ["number", "integer"], "s": ["string"], "a": ["array"], "o": ["object"]}[v[0]])]
        if k == "enum": return k, [self.near(v) if r.random() < 0.5 else self.value(2, PLAIN) for _ in range(r.randint(1, 3))]
        if k == "const": return k, self.near(v)
        if k in ("allOf", "anyOf", "oneOf"): return k, [sub(v) for _ in range(r.randint(1, 3))]
        if k in ("not", "if"): return k, sub(v)
        if k == "multipleOf": return k, r.randint(1, 6)
        if k in ("maximum", "exclusiveMaximum", "minimum", "exclusiveMinimum"): return k, n()
        if k in ("maxLength", "minLength", "maxItems", "minItems", "maxProperties", "minProperties"): return k, ln()
        if k == "pattern": return k, self.pat()
        if k == "prefixItems": return k, [sub(v[1][i] if v[0] == "a" and i < len(v[1]) else None) for i in range(r.randint(1, 3))]
        if k in ("items", "unevaluatedItems", "contains"): return k, sub(elem())
        if k == "uniqueItems": return k, r.random() < 0.85
        if k in ("properties", "dependentSchemas"): return k, [[x, sub(prop(x) if k == "properties" else v)] for x in keys(3)]
        if k == "patternProperties":
            pats = []
            for _ in range(r.randint(1, 2)):
                p = self.pat()
                if p not in pats: pats.append(p)
            return k, [[p, sub(r.choice(v[1])[1] if v[0] == "o" and v[1] else None)] for p in pats]
        if k in ("additionalProperties", "unevaluatedProperties"): return k, sub(r.choice(v[1])[1] if v[0] == "o" and v[1] else None)
        if k == "propertyNames": return k, sub(["s", key()])
        if k == "required": return k, keys(3)
        if k == "dependentRequired": return k, [[x, keys(2)] for x in keys(2)]

    def schema(self, d, v=None):
        r = self.r
        if v is None: v = self.value(1, PLAIN)
        if r.random() < 0.08: return ["bool", r.random() < 0.6]
        kw = {}
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            k, x = self.keyword(d, v)
            kw[k] = x
        if "if" in kw:
            if r.random() < 0.8: kw["then"] = self.schema(d - 1, v)
            if r.random() < 0.8: kw["else"] = self.schema(d - 1, v)
        if "contains" in kw:
            if r.random() < 0.5: kw["minContains"] = r.randint(0, 3)
            if r.random() < 0.5: kw["maxContains"] = r.randint(0, 3)
        l = list(kw.items())
        r.shuffle(l)
        return ["kw", [list(p) for p in l]]

    def schemaop(self):
        r = self.r
        v = self.value(3, PLAIN)
        s = self.schema(r.randint(0, 3), v)
        return {"n": "schema", "s": s, "v": [v] + [self.near(v) for _ in range(4)] + [self.value(2, PLAIN)]}

    def optprog(self):
        r = self.r
        ops = []
        for _ in range(2):
            T = self.table()
            ops.append({"n": "table", "t": T})
            for _ in range(r.randint(3, 8)): ops.append({"n": "parse", "w": self.words(T), "stop": r.choice([0, 0, 0, 0, 1, 2, 3])})
        return {"c": 0, "ops": ops}

    def schemaprog(self, n): return {"c": 0, "ops": [self.schemaop() for _ in range(n)]}

    def ptrprog(self, n):
        r = self.r
        ops, docs = [], {}
        for _ in range(n):
            x = r.random()
            if x < 0.7:
                d = self.value(3)
                ops.append({"n": "ptr", "doc": d, "p": self.pointer(d), "throw": r.random() < 0.3})
            elif x < 0.77: ops.append({"n": "dir", "d": r.choice(["A", "B", "C"])})
            elif x < 0.88:
                d = self.value(3)
                dd, nm = r.choice(["A", "B", "C"]), r.choice(["x.json", "y.json"])
                docs[nm] = d
                ops.append({"n": "file", "d": dd, "name": nm, "doc": d})
            else:
                nm = r.choice(["x.json", "y.json"])
                ops.append({"n": "fptr", "name": nm, "p": self.pointer(docs.get(nm, ["z"])), "throw": r.random() < 0.3})
        return {"c": 0, "ops": ops}
