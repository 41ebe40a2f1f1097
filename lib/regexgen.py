"""Pattern trees, subject strings and histories for Regex.tla."""

SPECIAL = [233, 201, 1103, 1071, 383, 8490, 10, 13, 0x2028, 32, 9, 0xA0, 45, 94, 93, 92, 47, 36, 46, 123, 95]


def units(cps):
    out = []
    for c in cps:
        if c > 0xFFFF:
            c -= 0x10000
            out += [0xD800 + (c >> 10), 0xDC00 + (c & 1023)]
        else: out.append(c)
    return out


class Gen:
    def __init__(self, rng): self.r = rng

    def chr(self):
        r, k = self.r, self.r.random()
        if k < 0.72: return r.choice([97, 97, 98, 98, 99])
        if k < 0.82: return r.choice([65, 66, 67, 107, 75, 115, 83, 48, 49, 122])
        if k < 0.94 or not self.u: return r.choice(SPECIAL)
        return r.choice([0x1F600, 66600, 66560, 0x10FFFF])

    def item(self):
        r, k = self.r, self.r.random()
        if k < 0.5: return ["c", self.chr()]
        if k < 0.75:
            a, b = r.choice([(97, 99), (97, 98), (98, 122), (65, 90), (48, 57), (97, 97), (0x61, 0x7A), (32, 47), (1071, 1103)] + ([(0x1F5FF, 0x1F601), (66560, 66600)] if self.u else []))
            return ["r", a, b]
        return ["e", r.choice("dDwWsS")]

    def atom1(self):
        r, k = self.r, self.r.random()
        if k < 0.62: return ["c", self.chr()]
        if k < 0.74: return ["any"]
        if k < 0.84: return ["esc", r.choice("dDwWsS")]
        return ["set", r.random() < 0.35, [self.item() for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]]

    def node(self, d, q=0):
        r, k = self.r, self.r.random()
        if d <= 0: return self.atom1()
        if k < 0.27: return self.atom1()
        if k < 0.45: return ["seq", [self.node(d - 1, q) for _ in range(r.choice([0, 2, 2, 3, 3]))]]
        if k < 0.55: return ["alt", [self.node(d - 1, q) for _ in range(r.choice([2, 2, 3]))]]
        if k < 0.68:
            n = ["grp", 0, None, ""]
            if r.random() < 0.3 and len(self.names) < 3:
                n[3] = "nmx"[len(self.names)]
                self.names.append(n[3])
            n[2] = self.node(d - 1, q)
            return n
        if k < 0.83:
            if q >= 2: return self.node(d - 1, q)
            lo, hi = r.choice([(0, -1), (0, -1), (1, -1), (0, 1), (0, 1), (0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (2, 3), (2, -1)])
            return ["q", self.node(d - 1, q + 1), lo, hi, r.random() < 0.65, 0, 0]
        if k < 0.89: return ["look", 1 if r.random() < 0.55 else -1, r.random() < 0.35, self.node(d - 1, q)]
        if k < 0.94: return [r.choice(["bol", "eol", "wb", "nwb"])]
        return ["ref", 0, r.random() < 0.3]

    def number(self, n, cap):
        """numbers the captures from left to right"""
        k = n[0]
        if k in ("seq", "alt"):
            for x in n[1]: cap = self.number(x, cap)
        elif k == "grp":
            cap += 1
            n[1] = cap
            if n[3]: self.named.append([n[3], cap])
            cap = self.number(n[2], cap)
        elif k == "ncg": cap = self.number(n[1], cap)
        elif k == "q":
            n[5] = cap + 1
            c = self.number(n[1], cap)
            n[6] = c - cap
            cap = c
        elif k == "look": cap = self.number(n[3], cap)
        elif k == "ref": self.refs.append(n)
        return cap

    def regex(self, u=None):
        r = self.r
        self.u = r.random() < 0.3 if u is None else u
        self.names, self.named, self.refs = [], [], []
        t = self.node(r.choice([2, 3, 3, 4, 4]))
        nc = self.number(t, 0)
        for n in self.refs:
            if nc == 0: n[:] = ["c", 97]
            elif n[2] and self.named:
                nm = r.choice(self.named)
                n[:] = ["ref", nm[1], nm[0]]
            else: n[:] = ["ref", r.randint(1, nc), ""]
        fl = [f for f, p in (("g", 0.4), ("y", 0.2), ("i", 0.3), ("m", 0.25), ("s", 0.2), ("d", 0.2)) if r.random() < p] + (["u"] if self.u else [])
        r.shuffle(fl)
        return {"n": "make", "p": t, "nc": nc, "names": [[[ord(c) for c in n], i] for n, i in self.named], "f": fl}

    def sample(self, n, caps):
        """some text the node could match"""
        r, k = self.r, n[0]
        if k == "c":
            c = n[1]
            return [c ^ 32] if chr(c).isascii() and chr(c).isalpha() and r.random() < 0.15 else [c]
        if k == "any": return [r.choice([97, 98, 99, 0x1F600])]
        if k == "esc": return [r.choice({"d": [48, 57], "D": [97], "s": [32, 10], "S": [98], "w": [97, 95], "W": [45]}[n[1]])]
        if k == "set":
            if n[1] or not n[2]: return [r.choice([97, 98, 99, 48])]
            it = r.choice(n[2])
            return [it[1]] if it[0] == "c" else [r.choice([it[1], it[2]])] if it[0] == "r" else self.sample(["esc", it[1]], caps)
        if k == "seq": return [c for x in n[1] for c in self.sample(x, caps)]
        if k == "alt": return self.sample(r.choice(n[1]), caps)
        if k == "grp":
            caps[n[1]] = t = self.sample(n[2], caps)
            return t
        if k == "ncg": return self.sample(n[1], caps)
        if k == "q": return [c for _ in range(r.randint(n[2], max(n[2], 3 if n[3] < 0 else n[3]))) for c in self.sample(n[1], caps)]
        if k == "ref": return caps.get(n[1], [])
        if k == "look": return self.sample(n[3], caps) if r.random() < 0.3 else []
        return []

    def subject(self, re):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            out += [r.choice([97, 98, 99, 32, 10, 0x1F600, 65, 0xD83D, 0xDE00]) for _ in range(r.choice([0, 0, 1, 2]))]
            t = self.sample(re["p"], {})[:8]
            if t and r.random() < 0.25: t[r.randrange(len(t))] = r.choice([97, 98, 99, 65])
            out += t
        if r.random() < 0.4: out += [r.choice([97, 98, 99, 10, 13])]
        # nested repetitions take exponential time, in the model and in the engine: short subjects for these
        return units(out[:7 if self.nested(re["p"]) else 14])

    def nested(self, n, q=0):
        if n[0] == "q" and n[3] != 1:
            q += 1
            if q > 1: return True
        return any(self.nested(x, q) for x in n[1:] if isinstance(x, list) and x and isinstance(x[0], str)) or \
            n[0] in ("seq", "alt") and any(self.nested(x, q) for x in n[1])

    def bounds(self, s, u):
        return [i for i in range(len(s) + 2) if not (u and 0 < i < len(s) and 0xD800 <= s[i - 1] < 0xDC00 and 0xDC00 <= s[i] < 0xE000)]

    def template(self, re):
        r, out = self.r, []
        nm = ["".join(map(chr, n)) for n, i in re["names"]] + ["zz"]
        for _ in range(r.randint(0, 4)):
            k = r.choice(["$$", "$&", "$`", "$'", "$1", "$2", "$<%s>" % r.choice(nm), "$", "-", "x", "$0", "$9", "<", "$01", "$<"])
            if k == "$01" and re["nc"] < 1: k = "-"
            out.append(k + ("" if k == "$01" or k[-1:].isdigit() is False else "."))
        return [ord(c) for c in "".join(out)]

    def prog(self, nre, nops):
        r = self.r
        ops, res = [], []
        for _ in range(nre):
            re = self.regex()
            ops.append(re)
            res.append(re)
            s = None
            for _ in range(nops):
                if s is None or r.random() < 0.25: s = self.subject(re)
                n = r.choice(["exec", "exec", "exec", "test", "search", "match", "match", "matchAll", "replace", "replace", "replaceFn", "split", "split", "set"])
                x = {"n": n, "r": len(res), "s": s}
                if n == "set": x["v"] = r.choice(self.bounds(s, "u" in re["f"])) if r.random() < 0.9 else len(s) + 5
                elif n != "set" and "u" in re["f"]: ops.append({"n": "set", "r": len(res), "s": s, "v": r.choice(self.bounds(s, True))})
                if n == "replace":
                    x["t"] = self.template(re)
                    x["all"] = r.random() < 0.3
                if n == "replaceFn": x["touch"] = len(s) > 0 and not ("u" in re["f"] and 1 not in self.bounds(s, True)) and r.random() < 0.3
                if n == "split": x["lim"] = r.choice([1000, 1000, 1000, 0, 1, 2, 3])
                ops.append(x)
        return {"c": r.randrange(4), "ops": ops}
