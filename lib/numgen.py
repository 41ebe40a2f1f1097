"""Operands and operations for spec/BigOps.tla and spec/NumOps.tla."""
def enc(v):
    a, m = abs(v), []
    while a:
        m.append(a & 4095)
        a >>= 12
    return {"n": v < 0, "m": m}


def big(r, bits=None):
    x = r.random()
    bits = bits or r.choice([1, 3, 12, 13, 24, 31, 32, 33, 53, 63, 64, 65, 96, 127, 128, 129, 160, 200, 256, 300])
    if x < 0.15: v = r.choice([0, 1, 2, 3, 7, 10, 100])
    elif x < 0.4: v = (1 << bits) + r.choice([-1, 0, 1, -2, 2])
    elif x < 0.5: v = ((1 << bits) - 1) << r.choice([0, 1, 31, 32, 33, 64])
    elif x < 0.6: v = sum(r.choice([0, 0xffffffff, 0x80000000, 1, 0x7fffffff]) << (32 * i) for i in range(r.randint(1, 6)))
    else: v = r.getrandbits(bits)
    return -v if r.random() < 0.45 else v


def digits(n, rx):
    out = []
    while n:
        out.append(n % rx)
        n //= rx
    return out[::-1] or [0]


CH = "0123456789abcdefghijklmnopqrstuvwxyz"
def text(ds, r=None): return "".join((CH[d].upper() if r and r.random() < 0.3 else CH[d]) for d in ds)


def num53(r):
    x = r.random()
    if x < 0.3: return r.choice([0, 1, -1, 2, 3, 5, 7, 10, -2, -3, 31, 32, 33, 63, 64, -31, -32])
    if x < 0.55: return r.choice([1, -1]) * ((1 << r.choice([8, 15, 16, 24, 29, 30, 31, 32, 33, 40, 52, 53])) + r.choice([-1, 0, 0, 1]))
    if x < 0.8: return r.choice([1, -1]) * r.getrandbits(r.choice([8, 20, 31, 32, 33, 45, 53]))
    if x < 0.9: return r.choice([1, -1]) * (r.getrandbits(53) << r.choice([1, 5, 10, 20, 32, 60, 100]))
    return r.choice([1, -1]) * (1 << r.choice([53, 54, 60, 63, 64, 65, 80, 84, 85, 200]))


def clip(v):
    """to 53 significant bits"""
    a, s = abs(v), 0
    while a >> s >= 1 << 53:
        s += 1
    a = (a >> s) << s
    return -a if v < 0 else a


def nval(r, frac=0.1):
    x = r.random()
    if x < 0.12: return ["x", r.choice(["NaN", "Infinity", "-Infinity", "-0", "-0"])]
    if x < 0.12 + frac:
        return ["h", r.random() < 0.5, enc(r.choice([0, 1, 2, 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, r.getrandbits(40)]))["m"]]
    return ["z", enc(clip(num53(r)))]


def big_op(r):
    n = r.choice(["add", "sub", "mul", "mul", "div", "div", "mod", "mod", "divmod", "pow", "neg", "not", "inc", "dec", "and", "or", "xor", "shl", "shl", "shr", "shr",
                  "cmp", "cmp", "cmpn", "asInt", "asUint", "text", "text", "parse", "parse", "tonum", "ofnum", "mix", "bool"])
    a, b = big(r), big(r)
    if r.random() < 0.15: b = r.choice([a, -a, a + 1, a - 1])
    x = {"n": n, "a": enc(a), "b": enc(b), "k": 0}
    if n in ("div", "mod", "divmod") and r.random() < 0.3: x["a"] = enc(b * big(r, 60) + r.choice([0, 0, 1, -1]))
    if n == "pow":
        x["a"] = enc(r.choice([0, 1, -1, 2, -2, 3, -3, 10, big(r, 20), big(r, 40)]))
        x["k"] = r.choice([0, 1, 2, 3, 4, 5, 7, 8] + [-1] * (r.random() < 0.2))
        if abs(int.from_bytes(b"", "big")) == 0 and len(x["a"]["m"]) <= 1: x["k"] = r.choice([x["k"], 13, 31, 64])
    if n in ("shl", "shr"): x["k"] = r.choice([0, 1, 5, 11, 12, 31, 32, 33, 63, 64, 65, 100, -1, -5, -32, -33, -64])
    if n in ("asInt", "asUint"): x["k"] = r.choice([0, 1, 2, 8, 12, 31, 32, 33, 63, 64, 65, 100, 128, 200, 300])
    if n == "text": x["k"] = r.choice([2, 3, 8, 10, 10, 10, 16, 32, 36, r.randint(2, 36)])
    if n == "parse":
        rx = r.choice([10, 10, 16, 8, 2])
        v = abs(a)
        ds = digits(v, rx)
        if r.random() < 0.2: ds = [0] * r.randint(1, 3) + ds
        t = text(ds, r)
        x["lit"] = r.random() < 0.3
        sg = rx == 10 and r.random() < 0.3 and not x["lit"]
        bad = False
        if x["lit"]:
            if rx == 10: ds = digits(v, 10); t = text(ds)
            if len(t) > 2 and r.random() < 0.3 and (rx != 10 or v): p = r.randint(1, len(t) - 1); t = t[:p] + "_" + t[p:]
        t = {10: "", 16: r.choice(["0x", "0X"]), 8: r.choice(["0o", "0O"]), 2: r.choice(["0b", "0B"])}[rx] + t
        if not x["lit"]:
            if sg: t = "-" + t
            elif rx == 10 and r.random() < 0.1: t = "+" + t
            y = r.random()
            if y < 0.15: t = r.choice([" ", "\t\n", "\u00a0"]) + t + r.choice(["", " ", "\r\n"])
            elif y < 0.3: t, bad = r.choice([t + "n", t + ".", "12e1", "- 1", "/**/1", t + "//", "1<!-- ", "\n-->1", "\\u0031", "1 2", "0x", "-0x1", "+-1", t + "_0", "z", "0b2", "0o8", "Infinity"]), True
            elif y < 0.33: t, ds, sg = r.choice(["", "  "]), [0], False
        x.update(ds=ds, k=rx, text=t, bad=bad, sg=sg)
    if n in ("cmpn", "ofnum"):
        x["v"] = nval(r)
        if n == "cmpn" and r.random() < 0.4: x["v"] = ["z", enc(clip(a + r.choice([0, 0, 1, -1])))]
    if n == "mix": x["op"] = r.choice(["add", "sub", "mul", "div", "mod", "pow", "and", "or", "xor", "shl", "shr"])
    if n == "tonum" and r.random() < 0.6:
        v = (1 << 53 | r.getrandbits(53)) << r.choice([0, 1, 2, 11, 40]); sh = r.choice([1, 2, 10, 30])
        x["a"] = enc((v << sh) + r.choice([0, 1, -1, 1 << (sh - 1), (1 << (sh - 1)) - 1, (1 << (sh - 1)) + 1]))
    return x


def num_op(r):
    n = r.choice(["not", "and", "or", "xor", "shl", "shl", "shr", "shr", "ushr", "ushr", "add", "add", "sub", "sub", "mul", "mul", "div", "mod", "mod", "pow", "pow",
                  "neg", "plus", "inc", "dec", "cmp", "cmp", "trunc", "clz", "imul", "tolen", "toidx", "at", "isint", "text", "parseInt", "parseInt", "tonum", "tonum"])
    x = {"n": n, "a": nval(r), "b": nval(r), "k": 0}
    if n in ("shl", "shr", "ushr") and r.random() < 0.7: x["b"] = ["z", enc(r.choice([0, 1, 2, 15, 16, 30, 31, 32, 33, 63, 64, -1, -31, -32]))]
    if n == "pow":
        x["a"] = r.choice([x["a"], ["z", enc(r.choice([2, 3, -2, -3, 5, 7, 10, -10, 15, 100, 1000]))]])
        x["b"] = r.choice([x["b"], ["z", enc(r.choice([0, 1, 2, 3, 4, 5, 9, 10, 15, 20, 31, 32, 52, 53, -1, -2]))]])
    if n in ("mul", "div", "mod") and r.random() < 0.4:
        x["a"], x["b"] = (["z", enc(r.choice([1, -1]) * r.getrandbits(r.choice([4, 16, 26])))] for _ in "ab")
        if n == "div":
            p, q = (r.choice([1, -1]) * (1 + r.getrandbits(r.choice([4, 16, 25]))) for _ in "ab")
            x["a"], x["b"] = ["z", enc(p * q)], ["z", enc(q)]
    if n == "at" and r.random() < 0.7: x["a"] = r.choice([["z", enc(r.randint(-12, 12))], ["h", r.random() < 0.5, enc(r.randint(0, 11))["m"]]])
    if n == "text": x["k"] = r.choice([2, 3, 8, 10, 10, 16, 32, 36, r.randint(2, 36)])
    if n in ("cmp",) and r.random() < 0.3: x["b"] = x["a"]
    if n == "parseInt":
        rx = r.choice([0, 0, 10, 16, 2, 8, 36, 3, 1, 37])
        use = rx if 2 <= rx <= 36 else r.choice([10, 16])
        v = abs(clip(num53(r))) & ((1 << 53) - 1)
        ds = digits(v, use)
        hex = use == 16 and r.random() < 0.5
        if r.random() < 0.05: hex = True
        if r.random() < 0.1: ds = []
        if r.random() < 0.1: ds = ds + [35]
        sg = r.random() < 0.25
        t = ("-" if sg else r.choice(["", "", "+"])) + (r.choice(["0x", "0X"]) if hex else "") + text(ds, r)
        t = r.choice(["", "", " ", "\n\u3000"]) + t + (r.choice(["", "", ".5", " 1", "!", "_1"]) if ds else "")
        if not hex and t.strip(" \n\u3000+-")[:2].lower() == "0x" or (rx == 0 and not hex and use == 16 and any(d > 9 for d in ds)):
            pass
        if not hex and len(ds) > 1 and ds[0] == 0 and ds[1] == 33: ds = [0]; t = "0"; sg = False
        x.update(k=rx, ds=ds, hex=hex, sg=sg, text=t)
    if n == "tonum":
        rx = r.choice([10, 10, 10, 16, 8, 2])
        v = abs(num53(r)) if rx == 10 else abs(clip(num53(r)))
        if rx == 10 and v > 10 ** 20: v %= 10 ** 20
        ds, ex, bad = digits(v, rx), 0, False
        x["lit"] = r.random() < 0.3
        sg = rx == 10 and not x["lit"] and r.random() < 0.3
        t = {10: "", 16: r.choice(["0x", "0X"]), 8: r.choice(["0o", "0O"]), 2: r.choice(["0b", "0B"])}[rx]
        if rx == 10:
            s = text(ds)
            y = r.random()
            if y < 0.2 and v < 10 ** 9:
                ex = r.randint(0, 8)
                t += s + r.choice(["e", "E", "e+"]) + str(ex)
            elif y < 0.4 and v < 10 ** 9 and len(s) > 1:
                p = r.randint(1, len(s) - 1)
                e = len(s) - p + r.randint(0, 4)
                ex = e - (len(s) - p)
                t += s[:p] + "." + s[p:] + "e" + str(e)
            elif y < 0.5: t += s + r.choice([".", ".0", ".000"])
            elif y < 0.55 and x["lit"] and len(s) > 1 and s[0] != "0": t += s[0] + "_" + s[1:]
            else: t += s
        else:
            t += text(ds, r)
        if not x["lit"]:
            if sg: t = "-" + t
            elif rx == 10 and r.random() < 0.1: t = "+" + t
            y = r.random()
            if y < 0.15: t = r.choice([" ", "\t\n", "\u00a0", "\ufeff"]) + t + r.choice(["", " ", "\r\n"])
            elif y < 0.3: t, bad = r.choice([t + "x", t + "_0", "--1", "- 1", "+\n1", "/**/1", t + "//", "1<!-- ", "\n-->1", "\\u0031", "\\u0049nfinity", "NaN1", "Infinity1", "1 2", "0x", "-0x1", "+-1", ".", "e5", "1e", "0b2", "0o8", "infinity", "1n"]), True
            elif y < 0.35: t, ds, sg, ex = r.choice(["", "  ", "\n"]), [], False, 0
        x.update(ds=ds, rx=rx, ex=ex, bad=bad, sg=sg, text=t)
    return x


def prog(r, isbig, n):
    return {"c": {"big": isbig, "seed": r.randint(0, 3)}, "ops": [big_op(r) if isbig else num_op(r) for _ in range(n)]}
