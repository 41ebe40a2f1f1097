"""Histories for spec/JsonOps.tla."""
U = ["u"]
u16 = lambda s: [ord(c) for c in s]
KEYS = [u16(k) for k in ["a", "b", "a", "b", "ab", "", "0", "1", "2", "10", "01", "c", "\u00e9", "-1", "length2"]] + [[0xd83d, 0xde00], [0xd800], [34], [10]]
STRS = [[], u16("a"), u16("x y"), [34], [92], [8, 9, 10, 12, 13], [0], [31, 127, 128], [0x2028], [0xd83d, 0xde00], [0xd800], [0xdc00], [0xdc00, 0xd800], [97, 0xd800], [0xdfff, 97],
        [47], u16("0123456789ab"), [32, 32], [9], u16("--")]
INTS = [0, 1, -1, 2, 7, 10, 42, -100, 999999999, -99999999]
MUT = u16("{}[],:,]}:[{\"\\0123456789-+.eEtrufalsn /'*xN\t\n\r\u000b\u000c\u00a0\ufeff\u2028\u0000\u001f\u007f\u2003ua") + [0xd800, 0xdc00]


class Gen:
    def __init__(self, r): self.r = r

    def key(self): return self.r.choice(KEYS)

    def prim(self):
        r = self.r
        x = r.random()
        if x < 0.3: return ["i", r.choice(INTS)]
        if x < 0.4: return ["h", r.choice([0, 1, -1, -2, 12, 9999999])]
        if x < 0.48: return ["x", r.choice(["NaN", "Infinity", "-Infinity", "-0"])]
        if x < 0.7: return ["s", r.choice(STRS)]
        if x < 0.77: return ["b", r.random() < 0.5]
        if x < 0.84: return ["z"]
        if x < 0.91: return U
        if x < 0.97: return ["y"]
        return ["g", r.randint(-5, 5)]

    def act(self, refs, rev):
        r = self.r
        x = r.random()
        if x < 0.3: return ["id"]
        if x < 0.45: return ["ret", self.prim() if rev or r.random() < 0.4 or not refs else ["r", r.choice(refs)]]
        if x < 0.5: return ["thr"] if r.random() < 0.4 else ["ret", U]
        t = r.choice([["h"], ["h"], ["v"]] + ([["r", r.choice(refs)]] if refs and not rev else []))
        if x < 0.7: return ["del", t, self.key()]
        if x < 0.88: return ["put", t, self.key(), self.prim() if rev or r.random() < 0.6 or not refs else ["r", r.choice(refs)]]
        if x < 0.95: return ["len", t, r.randint(0, 4)]
        return ["frz", t]

    def fn(self, refs, rev=False, calm=False):
        r = self.r
        self.id += 1
        d = ["id"] if r.random() < 0.8 else self.act(refs, rev)
        return ["fn", {"id": self.id, "a": [[self.key(), self.act(refs, rev)] for _ in range(r.choice([0, 1, 1, 2, 4]))], "d": d}]

    def ws(self):
        r = self.r
        return "" if r.random() < 0.8 else r.choice([" ", "\t", "\n", "\r", "  ", " \n "])

    def numeral(self, odd):
        r = self.r
        x = r.random()
        if not odd and x < 0.7: return str(r.choice(INTS))
        if not odd: return r.choice(["-0", "0.5", "-0.5", "1.5", "2.50", "1e2", "1E+2", "100e-1", "12.0", "-0.0", "0e5", "1e0", "5e-1", "0.0005e3", "1e00002", "-1.5E0"])
        return r.choice(["-", "-0", ""]) + r.choice(["0", "1", "12", "00", "1", "123456789012345678901"]) + r.choice(["", "", ".", ".5", ".25", ".0", ".00"]) + r.choice(["", "", "e1", "E-1", "e+2", "e", "e-", "e999", "e-999", "e+0"])

    def strtext(self):
        r = self.r
        s = r.choice(KEYS + STRS + [u16("__proto__"), u16("toJSON")])
        o = ""
        for c in s:
            x = r.random()
            e = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: "\\", 47: "/"}.get(c)
            if e and (x < 0.7 or c in (34, 92)) and x < 0.97: o += "\\" + e
            elif (c < 32 and x < 0.97) or x < 0.2: h = "%04x" % c; o += "\\u" + (h.upper() if r.random() < 0.5 else h)
            else: o += chr(c)
        return '"' + o + '"'

    def value(self, d, odd):
        r = self.r
        x = r.random()
        if d > 0 and x < 0.3: b = "[" + ",".join(self.value(d - 1, odd) for _ in range(r.choice([0, 1, 2, 2, 3]))) + self.ws() + "]"
        elif d > 0 and x < 0.65: b = "{" + ",".join(self.ws() + self.strtext() + self.ws() + ":" + self.value(d - 1, odd) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))) + self.ws() + "}"
        elif x < 0.75: b = r.choice(["null", "true", "false"])
        elif x < 0.88: b = self.strtext()
        else: b = self.numeral(odd)
        return self.ws() + b + self.ws()

    def text(self, odd):
        r = self.r
        t = u16(self.value(r.choice([0, 1, 2, 2, 3]), odd))
        if odd:
            for _ in range(r.choice([0, 1, 1, 2])):
                i = r.randint(0, len(t))
                x = r.random()
                if x < 0.4: t[i:i] = [r.choice(MUT)]
                elif x < 0.7: del t[i:i + 1]
                elif x < 0.9: t[i:i + 1] = [r.choice(MUT)]
                else: t[i:i] = u16(r.choice(["\\u12", "\\u", "\\x41", "\\'", "//x\n", "NaN", "Infinity", "undefined", "nul", "tru", "True", ",", "\\U0041", "1_0", "0x1", "1n", "\\u00e", "\\u{41}", ";", "(", ")", "=", "]", "}", "[", "{", ",", ",,", ":", "null", "1 2", "\"a\"", "\"a\":", "\\\n", "+1", ".5", "\\v", "\\0"]))
        return t

    def val(self, n):
        return ["r", self.r.choice(n)] if n and self.r.random() < 0.8 else self.prim()

    def prog(self, n):
        r = self.r
        self.id = 0
        ops = []
        kinds = []      # o / a / w / p per object
        refs = lambda: [i + 1 for i in range(len(kinds))]
        live = lambda ks: [i + 1 for i, k in enumerate(kinds) if k in ks]
        acy = r.random() < 0.7
        for _ in range(n):
            x = r.random()
            if x < 0.2 and len(kinds) < 9 or not kinds:
                k = r.choice(["o", "o", "a", "a", "w", "p"]) if kinds else "o"
                if k == "p" and not live("oap"): k = "a"
                pr = r.choice(live("o")) if live("o") and k in "oa" and r.random() < 0.15 else 0
                v = ["r", r.choice(live("oap"))] if k == "p" else U
                while k == "w" and v[0] in ("u", "z", "y"): v = self.prim()
                ops.append({"n": "new", "k": k, "pr": pr, "x": v})
                kinds.append(k)
            elif x < 0.6:
                o = r.choice(live("oap"))
                cand = [i for i in refs() if i < o] if acy else refs()
                y = r.random()
                key = self.key()
                if y < 0.12: v, key = self.fn(cand if acy else refs()), u16("toJSON")
                elif y < 0.22 and kinds[o - 1] == "o": v = ["get", self.fn(refs())[1]]
                elif y < 0.3: v = ["fn", self.fn(refs())[1]]
                else: v = self.val(cand)
                if kinds[o - 1] == "a" and r.random() < 0.7: key = u16(str(r.randint(0, 3)))
                ops.append({"n": "put", "o": o, "key": key, "v": v, "e": r.random() < 0.9})
            elif x < 0.63: ops.append({"n": "del", "o": r.choice(live("oap")), "key": self.key()})
            elif x < 0.64: ops.append({"n": "len", "o": r.choice(live("oap")), "len": r.randint(0, 4)})
            elif x < 0.645: ops.append({"n": "frz", "o": r.choice(live("oa"))})
            elif x < 0.78:
                y = r.random()
                if y < 0.55: ops.append({"n": "parse", "t": self.text(True), "rv": r.choice([U, U, U, ["z"], ["i", 1]]), "drop": True})
                else: ops.append({"n": "parse", "t": self.text(r.random() < 0.2), "rv": self.fn([], True), "drop": True})
            else:
                sp = r.choice([U, U, U, ["i", r.choice([0, 1, 2, 3, 10, 11, -1])], ["s", r.choice(STRS)], self.prim()] + ([["r", r.choice(live("w"))]] if live("w") else []))
                y = r.random()
                la = live("a")
                rp = U if y < 0.45 else self.fn(refs()) if y < 0.75 else ["r", r.choice(la)] if y < 0.9 and la else r.choice([U, ["z"], ["i", 1], ["s", [97]]] + [["r", i] for i in live("o")])
                v = self.val(live("oap") if r.random() < 0.8 else refs())
                ops.append({"n": "str", "v": v, "rp": rp, "sp": sp if sp[0] not in ("fn",) else U})
        return {"c": {}, "ops": ops}

    def build(self, n):
        """parse plain texts into the heap, then change and write them"""
        r = self.r
        p = self.prog(0)
        ops = []
        for _ in range(n):
            ops.append({"n": "parse", "t": self.text(False), "rv": U, "drop": False})
            ops.append({"n": "str", "v": ["r", 1], "rp": U, "sp": U})
        return {"c": {}, "ops": ops}
