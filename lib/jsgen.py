"""Random and systematic generators of programs for the JSCore specification.
Every generator returns (source, strict).  Programs terminate by construction, have no early
errors, and log what they do."""
import random


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    def choose(self, weighted):
        """weighted: list of (weight, thunk)"""
        tot = sum(w for w, _ in weighted)
        x = self.r.random() * tot
        for w, f in weighted:
            x -= w
            if x < 0:
                return f()
        return weighted[-1][1]()


# ---------------------------------------------------------------- C07: completions
class Completions(Gen):
    """bodies of nested try/catch/finally, loops, switches, labels with abrupt completions.
    mode: 'fn' plain, 'gen' with yields, 'async' with awaits, 'agen' with both"""

    def __init__(self, rng, mode="fn", budget=18):
        super().__init__(rng)
        self.mode = mode
        self.budget = budget
        self.labels = []       # (name, is loop)
        self.loops = 0
        self.breakable = 0
        self.vars = ["p"]

    def val(self):
        x = self.r.random()
        if x < 0.5:
            return str(self.r.randint(0, 9))
        if x < 0.8:
            return self.r.choice(self.vars)
        return "log('v%d', %s)" % (self.id(), self.r.choice(self.vars))

    def susp(self):
        """a suspension point as an expression"""
        if self.mode == "gen":
            x = self.r.random()
            if x < 0.8:
                return "yield %s" % self.val()
            return "yield* %s" % self.pick("[7, 8]", "inner(%d)" % self.id(), "inner(%d)" % self.id())
        if self.mode == "async":
            return "await %s" % self.awaitable()
        if self.mode == "agen":
            if self.p(0.4):
                return "await %s" % self.awaitable()
            if self.p(0.15):
                return "yield* %s" % self.pick("inner(%d)" % self.id(), "[7, 8]")
            return "yield %s" % self.awaitable()
        return self.val()

    def awaitable(self):
        x = self.r.random()
        if x < 0.5:
            return self.val()
        if x < 0.7:
            return "Promise.resolve(%s)" % self.val()
        if x < 0.85 and self.mode == "async":
            return "Promise.reject(%s)" % self.val()
        if x < 0.95:
            return "{ then(f, g) { log('t%d'); f(%s); } }" % (self.id(), self.val())
        return "new Promise((f, g) => { f(%s); })" % self.val()

    def simple(self):
        i = self.id()
        if self.mode != "fn" and self.p(0.45):
            return "log('s%d', %s);" % (i, self.susp())
        return "log('s%d', %s);" % (i, self.r.choice(self.vars))

    def abrupt(self):
        opts = [(2, lambda: "return %s;" % (self.susp() if self.p(0.2) else self.val())),
                (2, lambda: "throw %s;" % self.val())]
        if self.breakable:
            opts.append((2, lambda: "break;"))
        if self.loops:
            opts.append((2, lambda: "continue;"))
        if self.labels:
            l = self.r.choice(self.labels)
            opts.append((2, lambda: "break %s;" % l[0]))
            ll = [x for x in self.labels if x[1]]
            if ll:
                opts.append((2, lambda: "continue %s;" % self.r.choice(ll)[0]))
        s = self.choose(opts)
        if self.mode in ("fn", "gen") and self.p(0.08):
            return "if (p > 0) return f(p - 1);"
        if self.p(0.6):
            v = self.r.choice(self.vars)
            return "if (%s == %d) %s" % (v, self.r.randint(0, 3), s)
        return s

    def block(self, d):
        """statements in braces, in a fresh scope"""
        nv = len(self.vars)
        out = []
        if self.p(0.3):
            nm = "x%d" % self.id()
            out.append("%s %s = %s;" % (self.pick("let", "const"), nm, self.val()))
            self.vars.append(nm)
            if self.p(0.3):   # shadow a name of an outer block
                pass
        for _ in range(self.r.randint(1, 3)):
            if self.budget <= 0:
                break
            out.append(self.stmt(d - 1))
        if not out:
            out.append(self.simple())
        del self.vars[nv:]
        return "{ %s }" % " ".join(out)

    def loop(self, d, label=""):
        self.loops += 1
        self.breakable += 1
        if label:
            self.labels.append((label, True))
        i = self.id()
        kind = self.r.randint(0, 6)
        nv = len(self.vars)
        c = "c%d" % i
        if kind == 0:
            pre, post = "for (let %s = 0; %s < %d; %s++) " % (c, c, self.r.randint(1, 3), c), ""
            self.vars.append(c)
            body = self.block(d)
        elif kind == 1:
            pre, post = "while (log('w%d', k%d++) < 2) " % (i, i), ""
            body = self.block(d)
        elif kind == 2:
            pre, post = "do ", " while (log('d%d', k%d++) < 2);" % (i, i)
            body = self.block(d)
        elif kind == 3:
            pre, post = "for (const %s of [1, 2]) " % c, ""
            self.vars.append(c)
            body = self.block(d)
        elif kind == 4:
            pre, post = "for (let %s in { a: 1, b: 2 }) " % c, ""
            body = self.block(d)
        elif kind == 5:
            aw = self.mode in ("async", "agen") and self.p(0.6)
            pre, post = "for %s(let %s of %s(%d)) " % ("await " if aw else "", c, "src" if not aw or self.p(.3) else "asrc", i), ""
            self.vars.append(c)
            body = self.block(d)
        else:
            pre, post = "for (var v%d = 0; v%d < 2; log('u%d', v%d++)) " % (i, i, i, i), ""
            body = self.block(d)
        del self.vars[nv:]
        if label:
            self.labels.pop()
        self.loops -= 1
        self.breakable -= 1
        self.counters.append("k%d" % i)
        return pre + body + post

    counters = None

    def stmt(self, d):
        self.budget -= 1
        if self.counters is None:
            self.counters = []
        if d <= 0:
            return self.simple() if self.p(0.6) else self.abrupt()
        return self.choose([(3, self.simple), (3, self.abrupt), (4, lambda: self.try_(d)), (3, lambda: self.loop(d)),
                            (1.5, lambda: self.switch(d)), (1.5, lambda: self.label(d)), (1, lambda: self.if_(d)),
                            (1, lambda: self.block(d)), (0.5, lambda: self.with_(d))])

    def with_(self, d):
        if self.strict:
            return self.block(d)
        return "with ({ p: %d }) %s" % (self.r.randint(0, 3), self.block(d))

    strict = False

    def if_(self, d):
        s = "if (%s < %d) %s" % (self.r.choice(self.vars), self.r.randint(0, 4), self.block(d))
        if self.p(0.5):
            s += " else " + self.block(d)
        return s

    def label(self, d):
        l = "L%d" % self.id()
        if self.p(0.6):
            return "%s: %s" % (l, self.loop(d, l))
        self.labels.append((l, False))
        s = "%s: %s" % (l, self.block(d))
        self.labels.pop()
        return s

    def switch(self, d):
        self.breakable += 1
        cases = []
        n = self.r.randint(1, 4)
        dflt = self.r.randint(0, n) if self.p(0.6) else -1
        for j in range(n):
            body = " ".join(self.stmt(d - 1) for _ in range(self.r.randint(0, 2))) if self.budget > 0 else ""
            if j == dflt:
                cases.append("default: %s" % body)
            else:
                t = self.pick(str(self.r.randint(0, 3)), "log('k%d', %d)" % (self.id(), self.r.randint(0, 3)))
                cases.append("case %s: %s" % (t, body))
        self.breakable -= 1
        return "switch (%s) { %s }" % (self.val(), " ".join(cases))

    def try_(self, d):
        s = "try " + self.block(d)
        x = self.r.random()
        if x < 0.75:
            e = "e%d" % self.id()
            if self.p(0.85):
                self.vars.append(e)
                s += " catch (%s) %s" % (e, self.block(d))
                self.vars.remove(e)
            else:
                s += " catch " + self.block(d)
        if x > 0.35:
            i = self.id()
            x = self.r.random()
            s += " finally { log('f%d'); %s }" % (i, self.stmt(d - 2) if x < 0.35 and self.budget > 0 else self.abrupt() if x < 0.55 else "")
        return s

    def body(self):
        self.counters = []
        d = self.r.randint(3, 5)
        ss = []
        while self.budget > 0 and len(ss) < 4:
            ss.append(self.stmt(d))
        b = " ".join(ss)
        return "".join("let %s = 0; " % c for c in self.counters) + b


HELP = """function* inner(n) { try { let a = yield n; log('i', n, a); yield 5; return 6; } finally { log('if', n); } }
function src(n) { return { [Symbol.iterator]() { let i = 0; return { next() { log('sn', n); return { value: i, done: i++ > 1 }; }, return(v) { log('sr', n, v); return {}; } }; } }; }
function asrc(n) { return { [Symbol.asyncIterator]() { let i = 0; return { next() { log('an', n); return Promise.resolve({ value: i, done: i++ > 1 }); }, return(v) { log('ar', n, v); return Promise.resolve({}); } }; } }; }
"""


def c07(rng):
    g = Completions(rng, "fn", rng.choice([6, 12, 18, 26]))
    g.strict = rng.random() < 0.4
    body = g.body()
    return (HELP[HELP.index("function src"):HELP.index("function asrc")] if "src(" in body else "") + """
function f(p) { %s log('end'); }
for (let a of [%s]) { try { log('ret', f(a)); } catch (e) { log('thr', e); } }""" % (
        body, ", ".join(str(x) for x in rng.sample(range(5), 3))), g.strict


def genhelp(body):
    out = ""
    lines = HELP.strip().split("\n")
    for nm, l in zip(("inner(", "src(", "asrc("), lines):
        if nm in body.replace("asrc(", "" if nm == "src(" else "asrc("):
            out += l + "\n"
    return out


# ---------------------------------------------------------------- C05: generators
def c05(rng):
    g = Completions(rng, "gen", rng.choice([4, 8, 14]))
    g.strict = rng.random() < 0.4
    body = g.body()
    if rng.random() < 0.25:     # the generator resumes itself
        body = "try { log('re', it.%s(1)); } catch (e) { log('reent', e); } " % rng.choice(["next", "return", "throw"]) + body
    inner = genhelp(body).split("\n")
    pre = "\n".join(inner)
    if "inner(" in body and rng.random() < 0.6:   # delegate to a hand-made iterator instead
        pre = pre.replace(HELP.split("\n")[0], hand_iter(rng))
    drv = []
    for j in range(rng.randint(3, 9)):
        m = rng.choice(["next", "next", "next", "next", "return", "throw"])
        drv.append("try { log('%s', it.%s(%s)); } catch (e) { log('thr', e); }" % (m, m, rng.choice(["", str(j), "'a%d'" % j])))
    use = rng.random()
    if use < 0.15:
        drv = ["try { for (const v of it) { log('of', v); %s } } catch (e) { log('thr', e); } log(it.next());" % rng.choice(["", "if (v == 7) break;", "throw 'x';", "if (v > 2) break;"])]
    elif use < 0.22:
        drv = ["try { let [a, , b = 'd'] = it; log(a, b); } catch (e) { log('thr', e); } log(it.next());"]
    elif use < 0.28:
        drv = ["try { log([...it]); } catch (e) { log('thr', e); } log(it.next());"]
    return pre + "\nfunction* f(p) { %s }\nlet it = f(%d);\n%s" % (body, rng.randint(0, 4), "\n".join(drv)), g.strict


def hand_iter(rng):
    """an iterator whose next/return/throw are missing or misbehave"""
    def meth(nm, opts):
        x = rng.choice(opts)
        if x == "none":
            return ""
        body = {"ok": "return { value: 'v' + i, done: i++ > 1 };", "done": "return { value: 'd', done: true };", "notobj": "return 3;",
                "throw": "throw 't%s';" % nm, "acc": "return { get done() { log('gd'); return i++ > 1; }, get value() { log('gv'); return i; } };",
                "undef": "return undefined;"}[x]
        return ", %s(v) { log('%s', n, v, arguments.length); %s }" % (nm, nm, body)
    s = "function inner(n) { let i = 0; return { [Symbol.iterator]() { return this; }"
    s += meth("next", ["ok", "ok", "ok", "ok", "acc", "acc", "notobj", "throw"])
    s += meth("return", ["ok", "ok", "done", "none", "none", "throw", "notobj", "acc", "undef"])
    s += meth("throw", ["ok", "ok", "done", "none", "none", "throw", "notobj", "acc"])
    return s + " }; }"


# ---------------------------------------------------------------- C04: async functions
def c04(rng):
    out = []
    n = rng.randint(1, 3)
    pre = set()
    strict = rng.random() < 0.3
    for j in range(n):
        g = Completions(rng, "async", rng.choice([3, 6, 10]))
        g.n = 100 * j
        g.strict = strict
        b = g.body()
        pre.add(genhelp(b))
        k = rng.random()
        if k < 0.6:
            out.append("async function f%d(p) { %s log('end%d'); }" % (j, b, j))
        elif k < 0.8:
            out.append("const f%d = async (p) => { %s };" % (j, b))
        else:
            out.append("const f%d = ({ async m(p) { %s } }).m;" % (j, b))
    for j in range(n):
        out.append("f%d(%d).then(v => log('F%d', v), e => log('R%d', e));" % (j, rng.randint(0, 3), j, j))
        if rng.random() < 0.3:
            out.append(chain(rng, "q%d" % j))
    out.append("log('main');")
    lines = []
    for x in pre:
        for l in x.split("\n"):
            if l and l not in lines:
                lines.append(l)
    return "\n".join(lines + out), strict


def chain(rng, tag):
    s = "Promise.resolve('%s')" % tag
    for i in range(rng.randint(1, 5)):
        s += ".then(v => { log('%s', %d); return v; })" % (tag, i)
    return s + ";"


# ---------------------------------------------------------------- C06: async generators
def c06(rng):
    g = Completions(rng, "agen", rng.choice([3, 6, 10]))
    g.strict = rng.random() < 0.3
    body = g.body()
    if rng.random() < 0.2:
        body = "it.%s(9).then(v => log('self', v), e => log('selfR', e)); " % rng.choice(["next", "return", "throw"]) + body
    pre = genhelp(body)
    if "inner(" in body:
        x = rng.random()
        if x < 0.5:
            pre = pre.replace("function* inner", "async function* inner")
        elif x < 0.8:
            pre = pre.replace(HELP.split("\n")[0], hand_aiter(rng))
    out = [pre, "async function* f(p) { %s }" % body, "let it = f(%d);" % rng.randint(0, 3)]

    def req(j):
        m = rng.choice(["next", "next", "next", "return", "throw"])
        a = rng.choice([str(j), "'a%d'" % j, "Promise.resolve(%d)" % j] + (["Promise.reject(%d)" % j] if m != "next" else []) +
                       (["{ then(f) { log('th%d'); f(%d); } }" % (j, j)]))
        return "it.%s(%s).then(v => log('%s%d', v), e => log('%s%dR', e));" % (m, a, m, j, m, j)
    n = rng.randint(2, 7)
    if rng.random() < 0.2:
        out.append("(async () => { try { for await (const v of it) { log('of', v); %s } } catch (e) { log('ofR', e); } log('done', await it.next()); })();" %
                   rng.choice(["", "if (v == 7) break;", "throw 'x';", "if (v > 2) break;", "break;"]))
    for j in range(n):
        r = req(j)
        x = rng.random()
        if x < 0.6:
            out.append(r)
        elif x < 0.85:
            out.append("Promise.resolve()%s.then(() => { %s });" % (".then(() => 0)" * rng.randint(0, 4), r))
        else:
            out.append("{ let q = it.next('n%d'); q.then(v => { log('then%d', v); %s }, e => log('thenR%d', e)); }" % (j, j, r, j))
    if rng.random() < 0.3:
        out.append(chain(rng, "c"))
    out.append("log('main');")
    return "\n".join(out), g.strict


def hand_aiter(rng):
    def meth(nm, opts):
        x = rng.choice(opts)
        if x == "none":
            return ""
        body = {"ok": "return { value: 'v' + i, done: i++ > 1 };", "prom": "return Promise.resolve({ value: 'v' + i, done: i++ > 1 });",
                "done": "return { value: 'd', done: true };", "notobj": "return 3;", "throw": "throw 't%s';" % nm,
                "rej": "return Promise.reject('r%s');" % nm}[x]
        return ", %s(v) { log('%s', n, v, arguments.length); %s }" % (nm, nm, body)
    s = "function inner(n) { let i = 0; return { [Symbol.asyncIterator]() { return this; }"
    s += meth("next", ["ok", "prom", "prom", "prom", "notobj", "throw", "rej"])
    s += meth("return", ["ok", "prom", "done", "none", "none", "throw", "notobj", "rej"])
    s += meth("throw", ["ok", "prom", "done", "none", "none", "throw", "notobj", "rej"])
    return s + " }; }"


# ---------------------------------------------------------------- C03: promises
class Promises(Gen):
    def __init__(self, rng):
        super().__init__(rng)
        self.ps = []       # names of promise variables
        self.rs = []       # names of resolving functions
        self.sub = False

    def plain(self):
        return self.pick("1", "'a'", "undefined", "null", "true", "{ v: %d }" % self.id(), "[%d]" % self.id())

    def thenable(self):
        i = self.id()
        a, b = self.val(1), self.val(1)
        body = self.pick("f(%s);" % a, "r(%s);" % a, "f(%s); r(%s);" % (a, b), "r(%s); f(%s);" % (a, b), "throw %s;" % a, "f(%s); throw %s;" % (a, b),
                         "f(%s); f(%s);" % (a, b), "", "keep%d = f;" % i if False else "f(%s); return %s;" % (a, b))
        if self.p(0.25):
            # what happens while then is read may settle promises, this one included
            act = "%s(%s); " % (self.r.choice(self.rs), self.plain()) if self.rs and self.p(0.6) else ""
            act += "if (K[0]) K[0](%s); " % self.plain() if self.p(0.2) else ""
            return "{ get then() { log('gt%d'); %s%s } }" % (i, act, self.choose([
                (4, lambda: "return (f, r) => { log('t%d'); %s };" % (i, body)), (2, lambda: "throw %s;" % a), (2, lambda: "return %s;" % self.pick("1", "undefined", "{}"))]))
        if self.p(0.12):
            return "{ then(f, r) { log('tk%d'); K[K.length] = f; K[K.length] = r; %s } }" % (i, self.pick("", "", "throw %s;" % a, "f(%s);" % a))
        if self.p(0.1):
            return "{ then: %s }" % self.pick("1", "undefined", "{}")
        return "{ then(f, r) { log('t%d', this === undefined); %s } }" % (i, body)

    def val(self, d=0):
        x = self.r.random()
        if x < 0.45 or (d > 0 and x < 0.7):
            return self.plain()
        if x < 0.85 and self.ps:
            return self.r.choice(self.ps)
        if d > 1:
            return self.plain()
        if x < 0.93:
            return "Promise.%s(%s)" % (self.pick("resolve", "reject"), self.val(d + 1))
        return self.thenable()

    def act(self, d):
        """a statement inside a handler"""
        opts = [(3, lambda: ""), (0.15, lambda: "solve();")]
        if self.rs:
            opts.append((2, lambda: "%s(%s);" % (self.r.choice(self.rs), self.val())))
        opts.append((0.5, lambda: "if (K.length) K[%s](%s);" % (self.pick("0", "K.length - 1"), self.val())))
        if d > 0 and self.ps:
            opts.append((1, lambda: self.react(d - 1)))
        return self.choose(opts)

    def handler(self, d, nm):
        i = self.id()
        x = self.r.random()
        if x < 0.1:
            return self.pick("undefined", "null", "7", "{}", "log")
        end = self.choose([(4, lambda: "return %s;" % self.val()), (1.5, lambda: "throw %s;" % self.val()), (1, lambda: "")])
        if nm == "y":
            return "(...y) => { log('%s%d', y.length); %s %s }" % (nm, i, self.act(d), end)
        return "%s => { log('%s%d', %s); %s %s }" % (nm, nm, i, nm, self.act(d), end)

    def chainlink(self, d):
        x = self.r.random()
        if x < 0.55:
            a = self.handler(d, "v")
            b = self.handler(d, "e")
            return ".then(%s)" % self.pick(a, "%s, %s" % (a, b), "%s, %s" % (a, b), "undefined, %s" % b)
        if x < 0.75:
            return ".catch(%s)" % self.handler(d, "e")
        return ".finally(%s)" % self.handler(d, "y")

    def react(self, d=1):
        s = self.r.choice(self.ps) + "".join(self.chainlink(d) for _ in range(self.pick(1, 1, 2, 3)))
        return s + ";"

    def iterable(self):
        n = self.r.randint(0, 4)
        els = ", ".join(self.val() for _ in range(n))
        x = self.r.random()
        if x < 0.8:
            return "[%s]" % els
        i = self.id()
        if x < 0.9:
            return "src%d([%s])" % (self.pick(0, 0, 1, 2, 3), els)
        return self.pick("5", "undefined", "{}", "{ [Symbol.iterator]() { throw 'it'; } }")

    def decl(self):
        i = self.id()
        nm = "p%d" % i
        x = self.r.random()
        C = "Promise" if not self.sub or self.p(0.6) else "P"
        if x < 0.3:
            out = "let r%d, j%d; let %s = new %s((a, b) => { r%d = a; j%d = b; %s});" % (
                i, i, nm, C, i, i, self.pick("", "", "", "log('x%d'); " % i, "throw 't'; ", "a(%s); " % self.val(), "a(1); throw 2; "))
            self.rs += ["r%d" % i, "r%d" % i, "j%d" % i]
        elif x < 0.5:
            out = "let %s = %s.%s(%s);" % (nm, C, self.pick("resolve", "resolve", "reject"), self.val())
        elif x < 0.7 and self.ps:
            out = "let %s = %s%s;" % (nm, self.r.choice(self.ps), "".join(self.chainlink(1) for _ in range(self.pick(1, 2))))
        elif x < 0.9:
            out = "let %s = %s.%s(%s);" % (nm, C, self.pick("all", "allSettled", "any", "race"), self.iterable())
        elif x < 0.95:
            out = "let %s = (async () => { log('as%d'); %s return %s; })();" % (nm, i, "await %s;" % self.val() if self.p(0.6) else "", self.val())
        else:
            out = "let %s = new %s((a, b) => { %s(%s); });" % (nm, C, self.pick("a", "b"), self.val())
        self.ps.append(nm)
        return out

    def tweak(self):
        x = self.r.random()
        i = self.id()
        p = self.r.choice(self.ps)
        if x < 0.35:
            return "Object.defineProperty(%s, 'constructor', { get() { log('gc%d'); return %s; } });" % (p, i, self.pick("Promise", "undefined", "{}", "1"))
        if x < 0.7:
            return "%s.then = function (f, r) { log('ot%d', typeof f, typeof r); %s };" % (p, i, self.pick("", "return 'o';", "f(%s);" % self.plain(), "return Promise.prototype.then.call(this, f, r);"))
        return "Object.defineProperty(%s, 'then', { get() { log('gt%d'); return Promise.prototype.then; } });" % (p, i)

    def program(self):
        out = ["const K = [];"]
        if self.p(0.25):
            self.sub = True
            k = self.pick("", "static get [Symbol.species]() { log('sp'); return Promise; }", "static resolve(v) { log('PR'); return super.resolve(v); }",
                          "then(f, r) { log('PT'); return super.then(f, r); }")
            out.append("class P extends Promise { constructor(x) { log('PC'); super(x); } %s }" % k)
        n = self.r.randint(2, 6)
        for _ in range(n):
            out.append(self.decl())
            if self.p(0.15):
                out.append(self.tweak())
        m = self.r.randint(2, 6)
        for _ in range(m):
            x = self.r.random()
            if x < 0.3 and self.rs:
                out.append("%s(%s);" % (self.r.choice(self.rs), self.val()))
            elif x < 0.8:
                out.append(self.react(2))
            elif x < 0.9:
                out.append(chain(self.r, "q%d" % self.id()))
            else:
                out.append("log('m%d');" % self.id())
        for p in self.ps:
            if self.p(0.7):
                out.append("%s.then(v => log('%s', v), e => log('%sR', e));" % (p, p, p))
        if self.ps and self.p(0.3):
            i = self.id()
            self.ps.append("w%d" % i)
            w = "{ get then() { log('gw%d'); %s%s } }" % (i, "".join("%s%d(%s); " % (self.pick("wj", "wr"), i, self.val()) for _ in range(self.r.randint(1, 2))), self.choose([
                (2, lambda: "return undefined;"), (2, lambda: "throw 'w';"), (2, lambda: "return (f, r) => { f(%s); };" % self.plain()), (1, lambda: "return (f) => { };")]))
            out.append("let wr%d, wj%d; const w%d = new Promise((a, b) => { wr%d = a; wj%d = b; }); w%d.then(v => log('w', v), e => log('wR', e)); %s(%s);" % (
                i, i, i, i, i, i, "wr%d" % i, w))
            if self.p(0.5):
                out.append("wj%d('late'); wr%d('later');" % (i, i))
        for j in range(self.r.randint(0, 2)):
            out.append("Promise.resolve()%s.then(() => { if (K.length > %d) K[%d](%s); });" % (".then(() => 0)" * self.r.randint(0, 3), j, j, self.val()))
        # settle leftovers later
        if self.rs and self.p(0.5):
            out.append("Promise.resolve()%s.then(() => { %s(%s); });" % (".then(() => 0)" * self.r.randint(0, 4), self.r.choice(self.rs), self.val()))
        return out


SRCS = ["function src%d(a) { let i = 0; return { [Symbol.iterator]() { return this; }, next() { log('n', i); %s return { value: a[i], done: i++ >= a.length }; }, return() { log('ret'); return {}; } }; }" % (j, b)
        for j, b in enumerate(["", "if (i == 1) throw 'nx';", "if (i == 1) return 5;", "if (i == 1) return { get done() { throw 'dn'; } };"])]


def c03(rng):
    g = Promises(rng)
    out = ["let tag = 0;"]
    body = g.program()
    b = "\n".join(body)
    pre = [s for j, s in enumerate(SRCS) if "src%d(" % j in b]
    lines = pre + body
    if rng.random() < 0.12:
        i = rng.choice(["Promise.resolve = function (v) { log('myres'); return this === Promise ? new Promise(a => a(v)) : 0; };",
                        "Promise.prototype.then = (o => function (f, r) { log('mythen'); return o.call(this, f, r); })(Promise.prototype.then);"])
        lines = ["/*M*/" + i] + lines
    return "\n".join(lines), rng.random() < 0.3


# ---------------------------------------------------------------- C08: iterator consumers
class Iters(Gen):
    """an iterable whose next/return misbehave at random, used by random consumers"""

    def __init__(self, rng):
        super().__init__(rng)

    def elem(self):
        return self.pick("i", "i", "i", "undefined", "{ a: i }", "[i, 'v' + i]", "['k' + i, i]", "null", "[]")

    def iterable(self, nm, pairs=False):
        """source of: function nm() returning an iterable"""
        n = self.r.randint(0, 4)
        at = self.r.randint(0, 3)
        el = self.pick("['k' + i, i]", "['k' + i, i]", "['k' + i, i]", self.elem()) if pairs else self.elem()
        evil = self.choose([(5, lambda: ""),
                            (1, lambda: "if (i == %d) throw 'nx';" % at),
                            (0.7, lambda: "if (i == %d) return %s;" % (at, self.pick("5", "undefined", "null", "'s'"))),
                            (0.7, lambda: "if (i == %d) return { get done() { log('gd'); throw 'dn'; } };" % at),
                            (0.7, lambda: "if (i == %d) { i++; return { done: false, get value() { log('gv'); throw 'vl'; } }; }" % at),
                            (0.7, lambda: "if (i == %d) { i++; return %s; }" % (at, self.pick("{}", "{ value: 8 }", "{ done: 0, value: 9 }", "{ done: 'x' }", "[]"))),
                            (0.7, lambda: "if (i <= %d) { let j = i++; return { get done() { log('gd', j); return j >= %d; }, get value() { log('gv', j); return %s; } }; }" % (at + 2, n, el if "undef" in el else el.replace("i", "j")))])
        ret = self.choose([(5, lambda: "return {};"), (1.2, lambda: "return %s;" % self.pick("5", "undefined", "null", "'s'")),
                           (1.5, lambda: "throw 'rt';"), (0.8, None.__class__ and (lambda: None)),
                           (0.6, lambda: "try { throw 1; } catch (e) { log('in', e); } return {};")])
        meth = "next() { log('n', i); %s return { value: %s, done: i++ >= %d }; }" % (evil, el, n)
        x = self.r.random()
        if x < 0.1:
            meth = "get next() { log('gn'); return () => { log('n', i); return { value: i, done: i++ >= %d }; }; }" % n
        elif x < 0.13:
            meth = "next: %s" % self.pick("undefined", "1", "{}")
        rt = ""
        if ret is not None:
            rt = ", return(...a) { log('ret', a.length); %s }" % ret
            y = self.r.random()
            if y < 0.08:
                rt = ", get return() { log('gr'); %s }" % self.pick("throw 'gr';", "return undefined;", "return null;", "return 1;", "return () => ({});")
            elif y < 0.12:
                rt = ", return: %s" % self.pick("undefined", "null", "1", "{}")
        y = self.r.random()
        if y < 0.05:
            return "function %s() { return { [Symbol.iterator]: %s }; }" % (nm, self.pick("undefined", "1", "() => 1", "() => { throw 'si'; }", "() => undefined"))
        if y < 0.12:
            return "function* %s() { try { let i = 0; while (i < %d) { log('y', i); yield %s; i++; } } finally { log('gf'); %s } }" % (
                nm, n, el, self.pick("", "", "throw 'gft';", "return 3;", "yield 'more';"))
        if y < 0.18:
            return "function %s() { let a = [1, 2, 3]; Object.defineProperty(a, '1', { get() { log('g1'); %s return 'x'; } }); return a; }" % (
                nm, self.pick("", "", "throw 'g1';", "a.length = 1;"))
        if y < 0.22:
            return "function %s() { return %s; }" % (nm, self.pick("'abc'", "''", "null", "undefined", "5", "true", "{ a: 1 }", "[1, , 3]", "arguments"))
        return "function %s() { let i = 0; return { %s%s, [Symbol.iterator]() { log('it'); return this; } }; }" % (nm, meth, rt)

    # ---- assignment targets that log
    def target(self, d=2):
        i = self.id()
        x = self.r.random()
        if x < 0.3:
            return "a%d" % self.r.randint(0, 3)
        if x < 0.5:
            return "log('o%d', ob).p%d" % (i, self.r.randint(0, 2))
        if x < 0.6:
            return "log('o%d', ob)[log('k%d', 'q')]" % (i, i)
        if x < 0.66:
            return "ob.st"
        if x < 0.7:
            return "log('o%d', ob)[log('k%d', 0), { toString() { log('ts%d'); return 'z'; } }]" % (i, i, i) if False else "fn('f%d').x" % i
        if x < 0.74:
            return "thr('t%d').x" % i
        if d > 0 and x < 0.9:
            return self.pattern(d - 1, True)
        return "a%d" % self.r.randint(0, 3)

    def dflt(self):
        i = self.id()
        return "" if self.p(0.65) else " = " + self.pick("log('d%d', 7)" % i, "thr('d%d')" % i, "log('d%d', [1, 2])" % i, "log('d%d', { a: 1 })" % i, "undefined")

    def pattern(self, d, assign, names=None):
        """an array (mostly) or object pattern"""
        def tgt():
            if assign:
                return self.target(d)
            if d > 0 and self.p(0.2):
                return self.pattern(d - 1, False, names)
            nm = "b%d" % self.id()
            names.append(nm)
            return nm
        if self.p(0.8):
            els = []
            for _ in range(self.r.randint(0, 4)):
                els.append("" if self.p(0.12) else tgt() + self.dflt())
            if self.p(0.25):
                els.append("..." + tgt())
                return "[%s]" % ", ".join(els)
            return "[%s%s]" % (", ".join(els), "," if els and (els[-1] == "" or self.p(0.1)) else "")
        els = []
        for _ in range(self.r.randint(0, 3)):
            i = self.id()
            key = self.pick("a", "b", "[log('ck%d', 'a')]" % i, "0", "'length'")
            els.append("%s: %s%s" % (key, tgt(), self.dflt()))
        if self.p(0.2):
            nm = tgt() if assign else "b%d" % self.id()
            if nm.startswith(("[", "{")):
                nm = "a0"
            if not assign:
                names.append(nm)
            els.append("..." + nm)
        return "{ %s }" % ", ".join(els)

    def consumer(self, src):
        x = self.r.random()
        i = self.id()
        names = []
        if x < 0.22:
            return "(%s = %s);" % (self.pattern(2, True), src)
        if x < 0.34:
            p = self.pattern(2, False, names)
            return "{ %s %s = %s; log('dl', %s); }" % (self.pick("let", "const", "var"), p, src, ", ".join(names) or "0")
        if x < 0.44:
            p = self.pattern(2, False, names)
            f = self.pick("(function (%s%s) { log('pa', %s); })(%s);", "((%s%s) => { log('pa', %s); })(%s);")
            return f % (p, self.dflt(), ", ".join(names) or "0", src)
        if x < 0.66:
            return self.forof(src)
        if x < 0.72:
            return "log([%s...%s%s]);" % (self.pick("", "log('x'), "), src, self.pick("", ", log('y')", ", ...[8]"))
        if x < 0.78:
            return "%s(%s...%s%s);" % (self.pick("log", "new (class { constructor(...a) { log('c', a); } })", "log.call"), self.pick("", "log('x'), "), src, self.pick("", ", log('y')"))
        if x < 0.84:
            fn = self.pick("", "", ", v => { log('mf', v); return [v]; }", ", v => { throw 'mf'; }", ", 1", ", (v, i) => { log('mf', i); if (i == 1) throw 'mf1'; return v; }")
            return "log(Array.from(%s%s));" % (src, fn)
        if x < 0.92:
            C = self.pick("Map", "Set", "WeakMap", "WeakSet")
            m = "add" if C.endswith("Set") else "set"
            pre = ""
            if self.p(0.5):
                pre = "/*M*/%s.prototype.%s = %s; " % (C, m, self.pick("function (...a) { log('ad', ...a); return this; }", "function (...a) { log('ad', a.length); throw 'ad'; }", "undefined",
                                                                      "function (k) { log('ad'); if (i0++ == 1) throw 'ad1'; }"))
            return pre + "new %s(%s); log('made');" % (C, src)
        if x < 0.96:
            return "log(Object.fromEntries(%s));" % src
        return "{ function* g() { let r = yield* %s; log('ys', r); } let it = g(); log(it.next()); log(it.next(1)); log(it.%s(2)); log(it.next(3)); }" % (src, self.pick("next", "return", "throw"))

    def forof(self, src):
        i = self.id()
        names = []
        x = self.r.random()
        if x < 0.5:
            head, use = "%s c%d" % (self.pick("let", "const", "var"), i), "c%d" % i
        elif x < 0.7:
            head, use = self.target(1), "0"
            if head.startswith("{"):
                head, use = "a0", "a0"
        else:
            p = self.pattern(1, False, names)
            head, use = self.pick("let", "const", "var") + " " + p, ", ".join(names) or "0"
        n = self.r.randint(0, 2)
        ab = self.pick("", "", "break;", "continue;", "throw 'b';", "return 'r';", "break OUT;", "continue OUT;")
        cond = "if (i0++ == %d) " % n if ab and self.p(0.7) else ""
        fin = ""
        body = "log('b%d', %s); %s%s" % (i, use, cond, ab)
        y = self.r.random()
        if y < 0.15:
            body = "try { %s } finally { log('fi%d'); %s }" % (body, i, self.pick("", "", "throw 'fi';", "break;", "return 'f';", "continue;"))
        elif y < 0.25:
            body += " for (const z of it1()) { log('in', z); %s }" % self.pick("", "break;", "throw 'zz';", "return 'q';", "break OUT;", "continue OUT;")
        return "i0 = 0; OUT: for (%s of %s) { %s } log('after');" % (head, src, body) if "OUT" not in body or self.p(0.5) else \
            "i0 = 0; OUT: for (let w%d of it1()) { for (%s of %s) { %s } log('af%d'); } log('after');" % (i, head, src, body, i)


def c08(rng):
    g = Iters(rng)
    body = []
    src = "it0()"
    k = rng.randint(1, 2)
    for _ in range(k):
        body.append("try { log('R', (function () { %s })()); } catch (e) { log('T', e); } log('s', a0, a1, a2, a3);" % g.consumer(src))
    b = "\n".join(body)
    lines = [g.iterable("it0", "Map" in b or "fromEntries" in b)]
    if "it1(" in b:
        lines.append(g.iterable("it1"))
    lines.append("let i0 = 0, a0, a1, a2, a3, ob = { set st(v) { log('set', v); %s } };" % rng.choice(["", "", "throw 'st';"]))
    if "thr(" in b:
        lines.append("function thr(x) { log(x); throw x; }")
    if "fn(" in b:
        lines.append("function fn(x) { log(x); return ob; }")
    return "\n".join(lines + [b]), rng.random() < 0.4


# ---------------------------------------------------------------- C09: scopes
class SC:
    def __init__(self, kind, params=()):
        self.kind, self.lex, self.vars, self.params, self.fns = kind, set(), set(), set(params), set()


class Scopes(Gen):
    POOL = ["x", "y", "z"]

    def __init__(self, rng):
        super().__init__(rng)
        self.strict = self.p(0.4)
        self.sc = []
        self.budget = self.pick(10, 16, 24)
        self.inev = False
        self.incls = 0
        self.depth = 0

    def nm(self):
        return self.r.choice(self.POOL)

    # ---- may a name be declared here
    def can_lex(self, n):
        s = self.sc[-1]
        return n not in s.lex and n not in s.vars and n not in s.fns and not (s.kind == "fn" and n in s.params)

    def can_var(self, n):
        for s in reversed(self.sc):
            if n in s.lex or (s.kind != "fn" and n in s.fns):
                return False
            if s.kind in ("fn", "eval", "top"):
                return True
        return True

    def add_var(self, n):
        for s in reversed(self.sc):
            s.vars.add(n)
            if s.kind in ("fn", "eval", "top"):
                return

    # ---- expressions
    def expr(self, d=1):
        i = self.id()
        x = self.r.random()
        n = self.nm()
        if x < 0.3:
            return n
        if x < 0.5:
            return str(i)
        if x < 0.57:
            return "typeof %s" % n
        if x < 0.62 and d:
            return "(%s = %s)" % (n, self.expr(d - 1))
        if x < 0.66:
            return "(%s -= %d)" % (n, self.r.randint(1, 3))
        if x < 0.69:
            return "%s%s" % (n, self.pick("++", "--"))
        if x < 0.72:
            return "(%s %s %d)" % (n, self.pick("??=", "||=", "&&="), i)
        if x < 0.8 and d:
            return "keep(() => %s)" % self.expr(d - 1)
        if x < 0.84 and d:
            return "keep(() => { %s = %d; })" % (n, i)
        if x < 0.87 and d and not self.inev:
            return self.eval_()
        if x < 0.9 and d:
            return self.fnexpr()
        if x < 0.93 and not self.strict and not self.incls:
            return "delete %s" % n
        if x < 0.96 and d:
            self.incls += 1
            e = self.expr(0)
            self.incls -= 1
            return "(class %s { static m() { return %s; } }).m()" % (self.pick("", n, n), e)
        return "[%s, %s]" % (n, self.nm())

    def fnexpr(self):
        """a named or anonymous function expression called at once or kept"""
        n = self.pick("", self.nm(), self.nm())
        f = self.function(n, "function")
        return self.pick("(%s)(%d)", "keep(%s, %d)") % (f, self.r.randint(0, 9))

    def params(self):
        """parameter list source and names"""
        k = self.r.randint(0, 3)
        names = self.r.sample(self.POOL, k)
        simple = self.p(0.6)
        if simple:
            if not self.strict and k and self.p(0.15):
                return ", ".join(names + [names[0]]), names + [names[0]], True
            return ", ".join(names), names, True
        out = []
        for n in names:
            x = self.r.random()
            if x < 0.35:
                out.append(n)
            elif x < 0.75:
                e = self.pick("keep(() => %s)" % self.nm(), self.nm(), "(%s = %d)" % (self.nm(), self.id()), str(self.id()), "keep(() => { %s = %d; })" % (self.nm(), self.id()))
                if not self.inev and self.p(0.15) and not self.strict:
                    e = 'eval("var %s = %d; %s;")' % (self.pick("e1", "e2"), self.id(), self.nm())
                out.append("%s = %s" % (n, e))
            else:
                out.append(self.pick("[%s = %s]", "{ q: %s = %s }") % (n, self.pick(self.nm(), str(self.id()))) + self.pick("", " = [1]"))
        return ", ".join(out), names, False

    def function(self, name, kw):
        ps, names, simple = self.params()
        while kw == "arrow" and len(names) != len(set(names)):
            ps, names, simple = self.params()
        save = self.sc
        self.sc = self.sc + [SC("fn", names)]
        self.depth += 1
        b = self.body(self.r.randint(1, 3))
        self.depth -= 1
        self.sc = save
        if kw == "arrow":
            return "(%s) => { %s }" % (ps, b)
        return "%s %s(%s) { %s }" % (kw, name, ps, b)

    def body(self, n):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            out.append(self.stmt())
        if self.p(0.7):
            out.append(self.use())
        return " ".join(out)

    def use(self):
        i = self.id()
        return "try { log('u%d', %s); } catch (e) { log('c%d', e); }" % (i, self.expr(), i)

    def eval_(self):
        if self.strict and self.p(0.5):
            pass
        self.inev = True
        save = self.sc
        strict_eval = self.strict
        self.sc = self.sc + [SC("eval")]
        cat = self.catch_names()     # eval("var x") in catch (x) is Annex B
        parts = []
        for _ in range(self.r.randint(0, 3)):
            n = self.nm() if self.p(0.7) else self.pick("e1", "e2")
            x = self.r.random()
            if x < 0.4:
                s = self.sc[-1]
                if n not in s.lex and n not in cat:
                    s.vars.add(n)
                    parts.append("var %s%s;" % (n, self.pick("", " = %d" % self.id())))
            elif x < 0.6:
                if self.can_lex(n):
                    self.sc[-1].lex.add(n)
                    parts.append("%s %s = %d;" % (self.pick("let", "const"), n, self.id()))
            elif x < 0.75:
                s = self.sc[-1]
                if n not in s.lex and n not in s.vars and n not in cat:
                    s.vars.add(n)
                    parts.append("function %s() { return %s; }" % (n, self.pick("1", self.nm())))
            else:
                parts.append("%s = %d;" % (self.nm(), self.id()))
        e = self.pick(self.nm(), str(self.id()), "keep(() => %s)" % self.nm(), "keep(() => { %s = %d; })" % (self.nm(), self.id()))
        parts.append(e)
        self.sc = save
        self.inev = False
        return 'eval("%s;")' % " ".join(parts)

    # ---- statements
    def decl(self):
        n = self.nm()
        i = self.id()
        x = self.r.random()
        if x < 0.3:
            if self.can_var(n):
                self.add_var(n)
                return "var %s%s;" % (n, self.pick("", " = %s" % self.expr(), " = %d" % i, " = %d" % i))
        elif x < 0.75:
            if self.can_lex(n):
                self.sc[-1].lex.add(n)
                k = self.pick("let", "const")
                init = " = %s" % self.pick(self.expr(), str(i), str(i), "keep(() => %s)" % n)
                if k == "let" and self.p(0.15):
                    init = ""
                y = self.r.random()
                if y < 0.15:
                    return "%s [%s = %s] = [%s];" % (k, n, self.expr(0), self.pick("", "1", "undefined"))
                return "%s %s%s;" % (k, n, init)
        elif x < 0.85:
            if self.can_lex(n):
                self.sc[-1].lex.add(n)
                self.incls += 1
                e = self.expr(0)
                self.incls -= 1
                return "class %s { static v = %s; m() { return %s; } }" % (n, e, self.nm())
        else:
            s = self.sc[-1]
            if s.kind in ("fn", "top"):
                if n not in s.lex:
                    s.fns.add(n)
                    s.vars.add(n)
                    return self.function(n, "function")
            elif self.strict and self.can_lex(n):
                s.lex.add(n)
                s.fns.add(n)
                return self.function(n, "function")
        return self.use()

    def guarded(self, s):
        return "try { %s } catch (e) { log('g%d', e); }" % (s, self.id())

    def catch_names(self):
        out = set()
        for s in reversed(self.sc):
            out |= getattr(s, "cat", set())
            if s.kind in ("fn", "top"):
                break
        return out

    def twice(self):
        """activations of one function whose direct eval declares different names"""
        self.depth += 1
        use = lambda: self.pick("%s", "typeof %s", "[%s, typeof %s]" % (self.nm(), self.nm()), "(%s = %d)" % (self.nm(), self.id()), "delete %s", "g1", "typeof g1", "(() => %s)()", "keep(() => %s)",
                                "keep(() => delete %s)", "(%s -= 1)" % self.nm())
        one = lambda: "try { log('t%d', %s); } catch (e) { log('tc', e); } " % (self.id(), (lambda u: u % self.nm() if "%s" in u else u)(use()))
        wrap = [lambda s: s, lambda s: "{ let q = 1; keep(() => q); %s}" % s, lambda s: "for (let i = 0; i < 2; i++) { %sif (i) keep(() => i); }" % s, lambda s: "(() => { %s})(); " % s,
                lambda s: "try { throw 1; } catch { let q = 2; %s} " % s, lambda s: "(function () { %s})(); " % s, lambda s: "switch (1) { case 1: let q = 1; keep(() => q); %s} " % s]
        strs = []
        for _ in range(self.r.randint(2, 4)):
            n = self.nm()
            strs.append(self.pick("''", "'var %s = %d;'" % (n, self.id()), "'function %s() { return %d; }'" % (n, self.id()), "'let %s = %d;'" % (n, self.id()), "'var %s;'" % n,
                                  "'%s = %d;'" % (n, self.id()), "'delete %s;'" % n, "'globalThis.g1 = %d;'" % self.id(), "'delete globalThis.g1;'", "'var g1 = %d;'" % self.id()))
        evs = "''"
        for j, t in enumerate(strs):
            evs = "s === %d ? eval(%s) : %s" % (j, "'0;'" if t == "''" else t[:-1] + " 0;'", evs)
        evs = "(%s)" % evs
        ev = self.pick("EV; ", "EV; ", "(() => { EV; })(); ", "{ let q = 3; EV; keep(() => q); } ").replace("EV", evs)
        body = ""
        for part in self.r.sample([ev, one(), one(), one(), one()], self.r.randint(3, 5)):
            body += self.r.choice(wrap)(part) if self.p(0.6) else part
        if ev not in body:
            body = ev + body
        sig = self.pick("(s) { %s}", "(s, p = " + evs + ") { var %s; %%s}" % self.nm(), "(s, p = () => %s) { %%s log('p', p()); }" % self.nm()) % body
        self.depth -= 1
        f = self.pick("function %s", "function %s", "function* %s") % sig
        call = "f2(s)" if "function*" not in f else "[...f2(s)]"
        return "const f2 = %s; for (const s of [%s]) { try { log(%s); } catch (e) { log('f2', e); } }" % (f, ", ".join(str(j) for j in range(len(strs))), call)

    def block(self, n=2, lex=(), extra="", cat=()):
        self.sc = self.sc + [SC("block")]
        self.sc[-1].cat = set(cat)
        self.sc[-1].lex |= set(lex)
        b = self.body(n)
        self.sc = self.sc[:-1]
        return "{ %s%s }" % (extra, b)

    def stmt(self):
        self.budget -= 1
        d = self.decl
        if self.depth > 3:
            return self.use()
        return self.choose([(4, d), (3, self.use), (1.5, lambda: self.guarded_block()), (1, self.catch_), (2, self.loop), (0.8, self.switch),
                            (0.8, self.with_), (1.2, self.fndecl_call), (0.8, lambda: self.pick("log(%s);", "try { %s; } catch (e) { log('t', e); }") % (self.eval_() if not self.inev else "0")
                                                                        if self.p(0.3) else "try { log(%s); } catch (e) { log('ev', e); }" % (self.eval_() if not self.inev else "0"))])

    def guarded_block(self):
        self.depth += 1
        b = "try %s catch (e) { log('gb%d', e); }" % (self.block(), self.id())
        self.depth -= 1
        return b

    def catch_(self):
        n = self.nm()
        self.depth += 1
        x = self.r.random()
        if x < 0.6:
            p, names = n, [n]
        else:
            p, names = self.pick("[%s]" % n, "{ a: %s }" % n, "[%s = %s]" % (n, self.expr(0))), [n]
        b = self.block(2, names, cat=names)
        self.depth -= 1
        v = self.pick(str(self.id()), "[%d]" % self.id(), "{ a: %d }" % self.id(), "[]")
        if p.startswith("[") and not v.startswith("["):
            v = "[" + str(self.id()) + "]"
        return self.guarded("try { throw %s; } catch (%s) %s" % (v, p, b))

    def loop(self):
        n = self.nm()
        i = self.id()
        self.depth += 1
        x = self.r.random()
        kw = self.pick("let", "let", "const", "var")
        cap = "keep(() => %s); " % n
        cap += self.pick("", "keep(() => { %s = %d; }); " % (n, i), "")
        if kw == "var" and not self.can_var(n):
            kw = "let"
        if kw == "var":
            self.add_var(n)
        inner = []
        self.sc = self.sc + [SC("block")]
        if kw != "var":
            self.sc[-1].lex.add(n)
        if x < 0.45:
            if kw == "const":
                head = "const %s = %d, q%d = { v: 0 }; q%d.v < 2; q%d.v++" % (n, i, i, i, i)
            else:
                head = "%s %s = %d%s; %s < %d; %s++%s" % (kw, n, i, self.pick("", ", f%d = keep(() => %s)" % (i, n), ", f%d = keep(() => { %s++; })" % (i, n)), n, i + self.r.randint(1, 3), n,
                                                        self.pick("", ", keep(() => %s)" % n, ", log('inc', %s)" % n))
            s = "for (%s) " % head
        elif x < 0.75:
            s = "for (%s %s of [%s]) " % (kw, self.pick(n, n, "[%s]" % n), self.pick("1, 2", "[1], [2]", "[3]", "keep(() => %s)" % n, self.nm(), "[%s]" % self.nm()))
        else:
            s = "for (%s %s in %s) " % (kw, n, self.pick("{ a: 1, b: 2 }", "{ a: keep(() => %s) }" % n, "[1]"))
        self.sc[-1].kind = "block"
        # the body is a block of its own; jumps must leave closures right
        self.sc = self.sc + [SC("block")]
        body = self.body(self.r.randint(0, 2))
        self.sc = self.sc[:-2]
        self.depth -= 1
        body = cap + body + self.pick("", "", " if (q0++ > 2) break;", " if (q0++ < 2) continue; log('nc');")
        return self.guarded("q0 = 0; %s{ %s }" % (s, body))

    def switch(self):
        self.depth += 1
        self.sc = self.sc + [SC("block")]
        cases = []
        for j in range(self.r.randint(1, 3)):
            cases.append("%s: %s %s" % (self.pick("case %d" % self.r.randint(0, 2)) if j else "case 0", self.body(self.r.randint(0, 2)), self.pick("", "break;")))
        self.sc = self.sc[:-1]
        self.depth -= 1
        return self.guarded("switch (%d) { %s }" % (self.r.randint(0, 2), " ".join(cases)))

    def with_(self):
        if self.strict:
            return self.use()
        self.depth += 1
        ps = self.r.sample(self.POOL, self.r.randint(1, 2))
        o = ", ".join("%s: %d" % (p, self.id()) for p in ps)
        if self.p(0.25):
            o += ", [Symbol.unscopables]: { %s: %s }" % (ps[0], self.pick("true", "false", "1"))
        if self.p(0.2):
            o += ", get %s() { log('gw'); return 1; }, set %s(v) { log('sw', v); }" % (self.POOL[0], self.POOL[0]) if self.POOL[0] not in ps else ""
        pre = "let w%d = { %s }; " % (self.id(), o)
        nm = pre.split()[1]
        b = self.block(2, (), self.pick("", "", "keep(() => %s); " % self.nm(), "delete %s.%s; " % (nm, ps[0]), "%s.%s = %d; " % (nm, self.nm(), self.id())))
        self.depth -= 1
        return self.guarded("{ %swith (%s) %s log('w', %s); }" % (pre, nm, b, nm))

    def fndecl_call(self):
        self.depth += 1
        x = self.r.random()
        i = self.id()
        arg = ", ".join(str(self.id()) for _ in range(self.r.randint(0, 3)))
        if x < 0.5:
            s = self.guarded("(%s)(%s);" % (self.function(self.pick("", self.nm()), "function"), arg))
        elif x < 0.8:
            s = self.guarded("(%s)(%s);" % (self.function("", "arrow"), arg))
        else:
            s = self.guarded("for (const v of (%s)(%s)) log('gy', v);" % (self.function(self.pick("", self.nm()), "function*"), arg))
        self.depth -= 1
        return s


def c09(rng):
    g = Scopes(rng)
    g.sc = [SC("top")]
    out = ["const kept = [], run = []; let q0 = 0;",
           "function keep(f, a) { kept[kept.length] = f; run[run.length] = a; return 'k' + kept.length; }"]
    # the pool is always declared somewhere outside
    how = {}
    for n in g.POOL:
        k = rng.choice(["var", "let", "const", "late", "fn"])
        how[n] = k
        if k == "var":
            out.append("var %s = '%s0';" % (n, n))
        elif k in ("let", "const"):
            out.append("%s %s = '%s0';" % (k, n, n))
        elif k == "fn":
            out.append("function %s() { return '%s0'; }" % (n, n))
    inner = g.body(rng.randint(3, 6))
    if not g.strict and rng.random() < 0.4:
        out.append("delete globalThis.g1;")
        inner = "{ %s } %s" % (g.twice(), inner if rng.random() < 0.5 else "")
    out.append("(%s)();" % ("function () { " + inner + " }"))
    out.append("for (let i = 0; i < kept.length && i < 40; i++) { try { log('k' + i, kept[i](run[i])); } catch (e) { log('kc' + i, e); } }")
    for n in g.POOL:
        if how[n] == "late":
            out.append("let %s = '%sL';" % (n, n))
    out.append("for (let i = 0; i < kept.length && i < 40; i++) { try { log('j' + i, kept[i](run[i])); } catch (e) { log('jc' + i, e); } }")
    return "\n".join(out), g.strict


# ---------------------------------------------------------------- C17: arguments objects
class Args(Gen):
    """a function whose parameters and arguments object are used, changed and observed in random order"""

    def fn(self):
        self.strict = self.p(0.25)
        n = self.r.randint(0, 4)
        self.ps = ["a", "b", "c", "d"][:n]
        ps = list(self.ps)
        x = self.r.random()
        self.kind = "simple"
        if n and x < 0.12:
            self.kind = "default"
            i = self.r.randrange(n)
            ps[i] += " = " + self.pick(str(self.id()), "arguments[%d]" % self.r.randint(0, 3), "() => arguments", "arguments.length")
        elif x < 0.2:
            self.kind = "rest"
            ps.append("...r")
            self.ps.append("r")
        elif n and x < 0.26:
            self.kind = "pattern"
            ps[0] = "{ a = 1 } = {}" if self.ps[0] == "a" else ps[0]
        elif n > 1 and x < 0.36 and not self.strict:
            self.kind = "dup"
            ps[self.r.randrange(n)] = ps[self.r.randrange(n)]
            self.ps = sorted(set(ps))
        return ps

    def v(self):
        return self.pick(str(self.id()), str(self.id()), self.p_(), "arguments[%s]" % self.ix(), "'s%d'" % self.id())

    def p_(self):
        return self.r.choice(self.ps) if self.ps else "0"

    def ix(self):
        return str(self.r.choice([0, 0, 0, 1, 1, 2, 3, 4]))

    def look(self):
        return "log('s%d', arguments, arguments.length%s);" % (self.id(), "".join(", " + q for q in self.ps))

    def desc(self):
        d = []
        for k in self.r.sample(["value", "writable", "enumerable", "configurable"], self.r.randint(0, 4)):
            d.append("value: %s" % self.v() if k == "value" else "%s: %s" % (k, self.pick("true", "false", "false")))
        return "{ %s }" % ", ".join(d)

    def op(self):
        i = self.id()
        return self.choose([
            (10, lambda: "arguments[%s] = %s;" % (self.ix(), self.v())),
            (10, lambda: "%s = %s;" % (self.r.choice(self.ps), self.v()) if self.ps else self.look()),
            (2, lambda: "%s++;" % self.r.choice(self.ps) if self.ps else self.look()),
            (2, lambda: "arguments[%s] += %d;" % (self.ix(), i)),
            (5, lambda: "log('d%d', delete arguments[%s]);" % (i, self.ix())),
            (7, lambda: "Object.defineProperty(arguments, %s, %s);" % (self.ix(), self.desc())),
            (2, lambda: "Object.defineProperty(arguments, %s, { get() { log('g%d'); return %s; }, set(x) { log('t%d', x); %s }%s });"
                % (self.ix(), i, self.p_(), i, ("%s = x;" % self.p_()) if self.ps else "", self.pick("", ", configurable: true", ", enumerable: true, configurable: true"))),
            (1, lambda: "Object.freeze(arguments);"),
            (1, lambda: "Object.preventExtensions(arguments);"),
            (2, lambda: "arguments.length = %s;" % self.ix()),
            (1, lambda: "delete arguments.length;"),
            (4, lambda: "log('p%d', Object.getOwnPropertyDescriptor(arguments, %s));" % (i, self.ix())),
            (1, lambda: "log('n%d', Object.getOwnPropertyNames(arguments));" % i),
            (1, lambda: "log('k%d', Object.keys(arguments));" % i),
            (3, lambda: "log('x%d', ...arguments);" % i),
            (2, lambda: "for (const v of arguments) { log('f%d', v); %s }" % (i, self.assign())),
            (1, lambda: "for (let k in arguments) { log('i%d', k, arguments[k]); %s }" % (i, self.assign())),
            (3, lambda: "poke(arguments, %s, %s);" % (self.ix(), self.v())),
            (2, lambda: "(() => { %s %s })();" % (self.op(), self.op())),
            (2, lambda: "kept = () => { %s %s return arguments; };" % (self.op(), self.look())),
            (2, lambda: "set = (x) => { %s = x; };" % self.r.choice(self.ps) if self.ps else ""),
            (2, lambda: "set(%s);" % self.v()),
            (1, lambda: "if (kept) kept();"),
            (1, lambda: "arguments[Symbol.iterator] = undefined;"),
            (1, lambda: "Object.setPrototypeOf(arguments, %s);" % self.pick("{ 0: 'q', 5: 'r' }", "null", "[]")),
            (1, lambda: "log('h%d', %s in arguments);" % (i, self.ix())),
            (1, lambda: "log('c%d', arguments.callee === self);" % i),
            (1, lambda: "[%s] = arguments;" % ", ".join(self.ps) if self.ps else ""),
            (1, lambda: "[arguments[%s], arguments[%s]] = [%s, %s];" % (self.ix(), self.ix(), self.v(), self.v())),
            (1, lambda: "log('v%d', eval('%s; %s;'));" % (i, self.op1(), self.p_())),
        ] + ([(1, lambda: "arguments = %s;" % self.pick("[1, 2]", "kept", "{ length: 1 }"))] if not self.strict else [])
          + ([(8, lambda: "log('y%d', yield arguments);" % i)] if self.gen and not self.inner() else []))

    def inner(self):
        return self.noyield

    def op1(self):
        return self.pick("arguments[%s] = %d" % (self.ix(), self.id()), "%s = %d" % (self.r.choice(self.ps), self.id()) if self.ps else "0")

    def assign(self):
        return self.pick("arguments[%s] = %s;" % (self.ix(), self.v()), "%s = %s;" % (self.r.choice(self.ps), self.v()) if self.ps else "", "")

    def program(self):
        ps = self.fn()
        self.gen = self.p(0.12)
        self.noyield = False
        body = []
        if self.p(0.5):
            body.append(self.look())
        for _ in range(self.r.randint(3, 8)):
            self.noyield = False
            s = self.op()
            if "=>" in s and "yield" in s:
                continue
            if self.p(0.8) or self.strict or "define" in s:
                s = "try { %s } catch (e) { log('e%d', e); }" % (s, self.id())
            body.append(s)
            if self.p(0.7):
                body.append(self.look())
        x = self.r.random()
        if self.strict:
            pass
        elif x < 0.05:
            body.append("var arguments;")
        elif x < 0.08:
            body.append("var arguments = %s;" % self.v())
        elif x < 0.1:
            body.append("function arguments() { }")
        elif x < 0.13 and self.ps and self.kind == "simple" and not any("+=" in b for b in body):
            body.append("function %s() { }" % self.r.choice(self.ps))
        elif x < 0.17 and self.ps:
            body.append("var %s%s;" % (self.r.choice(self.ps), self.pick("", " = 5")))
        call = ", ".join(self.pick(str(self.id()), "'c%d'" % self.id(), "undefined") for _ in range(self.r.randint(0, 5)))
        body.append("return arguments;")
        nm = "self"
        out = ["let kept = null, set = (x) => { };",
               "function poke(o, k, v) { o[k] = v; log('poke', o); %s}" % ("arguments[0] = 1; k = 7; log('own', arguments); " if self.p(0.4) else "")]
        shape = self.r.random()
        if self.gen:
            out.append("function* self(%s) { %s }" % (", ".join(ps), "\n".join(body)))
            out.append("const it = self(%s);" % call)
            for _ in range(self.r.randint(1, 4)):
                out.append(self.pick("{ let r = it.next(%d); if (!r.done) { %s } log(r); }" % (self.id(), "r.value[%s] = %d;" % (self.ix(), self.id())), "log(it.next(%d));" % self.id(),
                                     "set(%d);" % self.id(), "if (kept) log('ke', kept());"))
        elif shape < 0.7:
            out.append("function self(%s) { %s }" % (", ".join(ps), "\n".join(body)))
            out.append("log('r', self(%s));" % call)
        elif shape < 0.8:
            out.append("const ob = { self(%s) { let self = ob.self; %s } };" % (", ".join(ps), "\n".join(body))) if self.kind != "dup" else out.append(
                "function self(%s) { %s }" % (", ".join(ps), "\n".join(body)))
            out.append("log('r', %s);" % (("ob.self(%s)" if self.kind != "dup" else "self(%s)") % call))
        elif shape < 0.9:
            out.append("const self = function (%s) { %s };" % (", ".join(ps), "\n".join(body)))
            out.append("log('r', self.%s);" % self.pick("apply(null, [%s])" % call, "call(%s)" % ("null" + (", " + call if call else ""))))
        else:
            out.append("function self(%s) { %s }" % (", ".join(ps), "\n".join(body)))
            out.append("log('r', new self(%s));" % call)
        for _ in range(self.r.randint(0, 3)):
            out.append(self.pick("if (kept) log('kept', kept());", "set(%d);" % self.id(), "log('again', self(%s));" % call))
        return "\n".join(out), self.strict


def c17(rng):
    return Args(rng).program()


ARGOPS = ["arguments[0] = %d", "p = %d", "delete arguments[0]", "D(arguments, 0, { value: %d })", "D(arguments, 0, { writable: false })",
          "D(arguments, 0, { value: %d, writable: false })", "D(arguments, 0, { value: %d, writable: true, enumerable: false })", "D(arguments, 0, { enumerable: false })",
          "D(arguments, 0, { configurable: false })", "D(arguments, 0, { get() { return p; }, set(x) { p = x + 1; }, configurable: true })", "D(arguments, 0, { get() { return 'g'; } })",
          "Object.freeze(arguments)", "Object.seal(arguments)", "Object.preventExtensions(arguments)", "arguments.length = 0",
          "S(arguments, '0', %d)", "S({ __proto__: arguments }, '0', %d)", "S(arguments, '0', %d, { })", "q = arguments[1] = %d", "poke(arguments, %d)", "(() => { p += 100; })()"]


def c17_all(rng, n):
    """every sequence of two operations on a mapped element, and n sequences of three"""
    seqs = [(a, b) for a in range(len(ARGOPS)) for b in range(len(ARGOPS))]
    three = [(a, b, c) for a in range(len(ARGOPS)) for b in range(len(ARGOPS)) for c in range(len(ARGOPS))]
    seqs += three if n >= len(three) else rng.sample(three, n)
    bodies = []
    for i, seq in enumerate(seqs):
        b = ""
        for j, o in enumerate(seq):
            o = ARGOPS[o]
            o = o % (10 * j + 11) if "%d" in o else o
            b += "try { log(%s); } catch (e) { log(e); } log(arguments[0], p, arguments.length); " % o
        b += "p = 'z'; log(arguments[0], arguments[1], Object.getOwnPropertyDescriptor(arguments, 0)); "
        b += "try { arguments[0] = 'y'; } catch (e) { log(e); } log(p, q);"
        bodies.append("function f%d(p, q) { %s }\nf%d(1, 2);" % (i, b, i))
    pre = "const D = (o, k, d) => { Object.defineProperty(o, k, d); return 'ok'; }, S = (o, k, v, ...r) => Reflect.set(o, k, v, ...r), poke = (a, v) => { a[0] = v; return a[0]; };\n"
    return [(pre + "\n".join(bodies[i:i + 8]), False) for i in range(0, len(bodies), 8)]


# ---------------------------------------------------------------- C21: classes
class Classes(Gen):
    """a few classes with instrumented heritage, keys, initialisers and constructors, then uses of them"""
    PRIV = ["p", "q"]
    PUB = ["m", "n", "f"]

    def __init__(self, rng):
        super().__init__(rng)
        self.names = []      # class names so far
        self.funs = []

    def lg(self, what="'%s'"):
        return "log(%s)" % (what % ("l%d" % self.id()))

    # -- expressions inside a class body
    def expr(self, c, static, d=0):
        """an expression with this possibly the instance/class; c: dict of the class (private names)"""
        i = self.id()
        return self.choose([
            (6, lambda: "log('v%d')" % i),
            (4, lambda: "log('t%d', this)" % i),
            (3, lambda: "log('n%d', new.target === %s)" % (i, self.pick("undefined", c["nm"])) if d < 3 else "1"),
            (4, lambda: self.privuse(c, "this", i)),
            (2, lambda: "log('s%d', super.%s)" % (i, self.pick("m", "n", "f"))),
            (2, lambda: "log('u%d', super.%s(%d))" % (i, self.pick("m", "n"), i)),
            (1, lambda: "super.%s = %d" % (self.pick("m", "n", "f"), i)),
            (1, lambda: "super['%s'] = log('w%d', %d)" % (self.pick("m", "n", "f"), i, i)),
            (2, lambda: "log('a%d', this.%s)" % (i, self.pick(*self.PUB))),
            (2, lambda: "(() => %s)()" % self.expr(c, static, d + 1) if d < 2 else "2"),
            (2, lambda: "() => %s" % self.expr(c, static, d + 1) if d < 2 else "3"),
            (1, lambda: "log('c%d', %s === this)" % (i, c["nm"])),
            (1, lambda: "log('e%d', %s)" % (i, c["nm"])),
            (1, lambda: "thrower(%d)" % i),
            (1, lambda: "%d" % i),
            (1, lambda: "log('ev%d', eval('this;'))" % i),
        ])

    def privuse(self, c, o, i):
        if not c["priv"]:
            return "log('z%d')" % i
        kind, nm = self.r.choice(sorted(c["priv"].items()))[::-1]
        return self.choose([
            (4, lambda: "log('g%d', %s.#%s)" % (i, o, nm)),
            (3, lambda: "%s.#%s = log('k%d', %d)" % (o, nm, i, i)),
            (2, lambda: "log('h%d', #%s in %s)" % (i, nm, o)),
            (1, lambda: "%s.#%s += %d" % (o, nm, i) if kind == "field" else "log('b%d', %s.#%s)" % (i, o, nm)),
            (2, lambda: "log('o%d', %s.#%s(%d))" % (i, o, nm, i)),
            (1, lambda: "log('r%d', %s?.#%s)" % (i, self.pick(o, "null"), nm)),
        ])

    def guard(self, s, p=0.6):
        return "try { %s } catch (e) { log('c%d', e); }" % (s, self.id()) if self.p(p) else s

    def stmts(self, c, static, lo=0, hi=3):
        return " ".join(self.guard(self.expr(c, static) + ";") if not e else e for e in [""] * self.r.randint(lo, hi))

    def key(self):
        """a property key as written"""
        i = self.id()
        nm = self.pick(*self.PUB)
        return self.choose([
            (6, lambda: nm),
            (4, lambda: "[log('K%d', '%s')]" % (i, nm)),
            (1, lambda: "[key(%d, '%s')]" % (i, nm)),
            (0.3, lambda: "[thrower(%d)]" % i),
            (0.5, lambda: "[sA]"),
            (0.5, lambda: "'%s'" % nm),
            (0.5, lambda: "%d" % self.r.randint(0, 2)),
        ])

    def ctor(self, c):
        i = self.id()
        derived = c["h"]
        b = []
        if derived:
            arg = self.pick("", "a", "...args", "log('A%d')" % i)
            sup = self.choose([
                (10, lambda: "super(%s);" % arg),
                (2, lambda: "(() => super(%s))();" % arg),
                (1, lambda: "let go = () => { super(%s); }; log('p%d'); go();" % (arg, i)),
                (1, lambda: "log('S%d', super(%s) === this);" % (i, arg)),
                (1, lambda: "super(%s); try { super(%s); } catch (e) { log('2%d', e, this === undefined); }" % (arg, arg, i)),
                (1, lambda: "try { super(%s); } finally { %s }" % (arg, self.guard("log('F%d', this);" % i))),
                (1, lambda: "try { log('b%d', this); } catch (e) { log('d%d', e); super(%s); }" % (i, i, arg)),
                (1, lambda: ""),
                (1, lambda: "if (a) super(%s);" % arg),
                (1, lambda: "eval('super(%s); 0;');" % arg if arg in ("", "a") else "super();"),
                (1, lambda: "for (let j = 0; j < 2; j++) { try { super(%s); } catch (e) { log('L%d', e); } }" % (arg, i)),
            ])
            if self.p(0.3):
                b.append("log('N%d', new.target === %s);" % (i, c["nm"]))
            if self.p(0.15):
                b.append(self.guard("log('B%d', this);" % i, 0.8))
            b.append(sup)
        b.append(self.stmts(c, False))
        x = self.r.random()
        if x < 0.08:
            b.append("return %s;" % self.pick("{ ret: %d }" % i, "undefined", "1", "null", "a", "[]"))
        elif x < 0.12:
            b.append("return (() => this)();")
        elif x < 0.16:
            b.append("try { return %s; } finally { log('G%d'); }" % (self.pick("a", "{ r: 1 }", "7"), i))
        return "constructor(a, ...args) { log('C%d', a); %s }" % (i, " ".join(b))

    def cls(self, nm, expr=False):
        """the source of a class"""
        i = self.id()
        h = self.choose([
            (5, lambda: ""),
            (6, lambda: self.r.choice(self.names) if self.names else ""),
            (2, lambda: "log('H%d', %s)" % (i, self.r.choice(self.names)) if self.names else ""),
            (0.5, lambda: "null"),
            (1, lambda: self.r.choice(self.funs) if self.funs else ""),
            (0.15, lambda: self.pick("thrower(%d)" % i, "(() => 1)", "5", "undefined", "({ })", "(function* () { })", nm or "1")),
        ])
        c = {"nm": nm, "h": h, "priv": {}}
        used = set()
        for p in self.PRIV:
            if self.p(0.6):
                c["priv"][p] = self.pick("field", "field", "meth", "acc", "get", "sfield", "smeth")
        els = []
        for p, kind in c["priv"].items():
            j = self.id()
            if kind == "field":
                els.append("#%s%s;" % (p, " = " + self.expr(c, False) if self.p(0.8) else ""))
            elif kind == "sfield":
                els.append("static #%s = %s;" % (p, self.expr(c, True)))
            elif kind in ("meth", "smeth"):
                els.append("%s#%s(x) { log('M%d', x); %s return %d; }" % ("static " if kind == "smeth" else "", p, j, self.stmts(c, kind == "smeth", 0, 1), j))
            else:
                els.append("get #%s() { log('G%d'); return %s; }" % (p, j, self.pick(str(j), "this", "(x) => x")))
                if kind == "acc":
                    els.append("set #%s(x) { log('T%d', x); }" % (p, j))
        for _ in range(self.r.randint(1, 5)):
            st = self.p(0.35)
            s = "static " if st else ""
            j = self.id()
            els.append(self.choose([
                (5, lambda: "%s%s%s;" % (s, self.key(), " = " + self.expr(c, st) if self.p(0.85) else "")),
                (4, lambda: "%s%s(x) { %s return %s; }" % (s, self.key(), self.stmts(c, st, 0, 2), self.pick("x", "this", str(j)))),
                (1.5, lambda: "%sget %s() { log('g%d', this); return %s; }" % (s, self.key(), j, self.pick(str(j), self.expr(c, st)))),
                (1.5, lambda: "%sset %s(x) { log('t%d', this, x); %s }" % (s, self.key(), j, self.stmts(c, st, 0, 1))),
                (1, lambda: "%s*%s(x) { yield this; %s yield x; }" % (s, self.key(), self.stmts(c, st, 0, 1))),
                (0.5, lambda: "%sasync %s(x) { await x; %s }" % (s, self.key(), self.stmts(c, st, 0, 1))),
                (2, lambda: "static { %s }" % self.stmts(c, True, 1, 2)),
            ]))
        # access to the private names from outside
        if c["priv"]:
            nmp = self.r.choice(sorted(c["priv"]))
            for what, body in [("pget", "return o.#%s;" % nmp), ("pset", "o.#%s = v;" % nmp), ("phas", "return #%s in o;" % nmp), ("pcall", "return o.#%s(v);" % nmp)]:
                if self.p(0.6):
                    els.append("static %s(o, v) { %s }" % (what, body))
                    c.setdefault("acc", []).append(what)
        if self.p(0.6):
            els.append(self.ctor(c))
        self.r.shuffle(els)
        # a getter and setter of a private name must keep both; order does not matter
        c["src"] = "class %s%s { %s }" % (nm if not expr or self.p(0.5) else nm, " extends " + h if h else "", "\n".join(els))
        return c

    def use(self, cs):
        c = self.r.choice(cs)
        d = self.r.choice(cs)
        i = self.id()
        nm = c["nm"]
        x = self.choose([
            (6, lambda: "o = log('o%d', new %s(%s));" % (i, nm, self.pick("", "1", "o", "{ x: 1 }"))),
            (1.5, lambda: "o = log('o%d', Reflect.construct(%s, [%s], %s));" % (i, nm, self.pick("", "o"), self.pick(d["nm"], d["nm"], "fn0"))),
            (1, lambda: "log('o%d', %s(%d));" % (i, nm, i)),
            (1, lambda: "log('o%d', %s.call(o, 1));" % (i, nm)),
            (4, lambda: "log('m%d', o.%s(%s));" % (i, self.pick("m", "n", "f"), self.pick("1", "o"))),
            (3, lambda: "log('s%d', %s.%s(%s));" % (i, nm, self.pick("m", "n", "f"), self.pick("1", "o"))),
            (2, lambda: "log('g%d', o.%s);" % (i, self.pick("m", "n", "f"))),
            (2, lambda: "o.%s = %d;" % (self.pick("m", "n", "f"), i)),
            (1, lambda: "%s.%s = %d;" % (nm, self.pick("m", "n", "f"), i)),
            (2, lambda: "log('c%d', %s.prototype.%s.call(%s, 2));" % (i, nm, self.pick("m", "n"), self.pick("o", "{ f: 1 }", "5", "undefined", d["nm"]))),
            (6, lambda: "log('p%d', %s.%s(%s, %s));" % (i, nm, self.r.choice(c["acc"]), self.pick("o", "o", "o", nm, "new %s()" % nm, d["nm"], "{ }", "1", "null"), self.pick("1", "'v'")) if c.get("acc") else ""),
            (1, lambda: "log('n%d', Object.getOwnPropertyNames(%s), Object.getOwnPropertyNames(%s.prototype));" % (i, nm, nm)),
            (1, lambda: "log('d%d', Object.getOwnPropertyDescriptor(%s.prototype, '%s'));" % (i, nm, self.pick("m", "n", "constructor"))),
            (1, lambda: "log('i%d', o instanceof %s, Object.getPrototypeOf(%s) === %s);" % (i, nm, nm, d["nm"])),
            (1, lambda: "Object.setPrototypeOf(%s, %s);" % (nm, self.pick(d["nm"], "fn0", "{ m() { return 'pm'; } }")) if c is not d else ""),
            (1, lambda: "Object.setPrototypeOf(%s.prototype, { m(x) { return 'sm'; }, get n() { log('sn', this); return (x) => x; }, set f(x) { log('sf', this, x); } });" % nm if not c["h"] else ""),
            (0.5, lambda: "o = Object.freeze(new %s());" % nm),
            (0.5, lambda: "%s = 1;" % nm),
            (0.5, lambda: "log('D%d', delete %s.prototype.m, delete %s.prototype);" % (i, nm, nm)),
            (1, lambda: "for (const v of o.%s(1)) log('y%d', v);" % (self.pick("m", "n"), i)),
            (1, lambda: "if (typeof o.f === 'function') log('f%d', o.f());" % i),
        ])
        return "try { %s } catch (e) { log('E%d', e); }" % (x, self.id())

    def program(self):
        out = ["let o = { };", "function thrower(i) { log('throw', i); throw i; }",
               "function key(i, k) { return { [Symbol.toPrimitive](h) { log('tp' + i, h); return k; } }; }",
               "function fn0(a) { log('fn0', a, new.target === fn0); this.z = 1; %s}" % self.pick("", "if (a) return a; "),
               "fn0.prototype.m = function (x) { log('fm', this, x); return 'fm'; };"]
        self.funs = ["fn0"]
        cs = []
        n = self.r.randint(1, 3)
        for i in range(n):
            nm = "ABC"[i]
            if cs and self.p(0.2):
                # the same class evaluated twice: the private names differ
                c = self.cls(nm, True)
                out.append("const mk%s = () => { %s return %s; };" % (nm, c["src"], nm))
                out.append("let %s, %s2; try { %s = mk%s(); %s2 = mk%s(); } catch (e) { log('x', e); }" % (nm, nm, nm, nm, nm, nm))
                cs.append(c)
                c2 = dict(c, nm=nm + "2")
                cs.append(c2)
            elif self.p(0.25):
                c = self.cls(nm)
                out.append("let %s; try { %s = %s; } catch (e) { log('x', e); }" % (nm, nm, c["src"]))
                cs.append(c)
            elif self.p(0.15):
                c = self.cls(nm)
                out.append("try { log('tdz', %s); } catch (e) { log('x', e); }" % nm)
                out.append(c["src"])
                cs.append(c)
            else:
                c = self.cls(nm)
                out.append(c["src"])
                cs.append(c)
            self.names.append(nm)
            for _ in range(self.r.randint(0, 2)):
                out.append(self.use(cs))
        for _ in range(self.r.randint(3, 8)):
            out.append(self.use(cs))
        return "\n".join(out), self.p(0.2)


def c21(rng):
    return Classes(rng).program()


def c21_all(rng):
    """every way of reaching each kind of private element on each kind of object; branding twice; leaked partial instances"""
    kinds = [("field", "#x = log('init', 1);"), ("ffn", "#x = function (v) { return log('ffn', this === undefined, v); };"), ("meth", "#x(v) { return log('meth', v); }"),
             ("get", "get #x() { return log('get', 2); }"), ("set", "set #x(v) { log('set', v); }"), ("acc", "get #x() { return log('get', 3); } set #x(v) { log('set', v); }"),
             ("gen", "*#x(v) { yield v; }"), ("asy", "async #x(v) { log('asy', v); }")]
    uses = ["o.#x", "o.#x = 5", "o.#x ??= 6", "o.#x &&= 6", "o.#x(7)", "#x in o", "o?.#x", "o?.#x(8)", "o.#x?.(9)", "delete o.y", "[o.#x] = [1]", "({ a: o.#x } = { a: 2 })", "typeof o.#x", "(0, o.#x)(3)", "#x in o && #x in A", "o.#x += 5", "o.#x++", "--o.#x", "o.#x *= 2"]
    out = []
    for kn, decl in kinds:
        for st in ("", "static "):
            if st and kn == "field":
                decl = decl.replace("log('init', 1)", "1")
            body = st + decl.replace("} set #x", "} %sset #x" % st)
            us = "\n".join("static u%d(o) { return %s; }" % (i, u) for i, u in enumerate(uses))
            objs = ["new A()", "A", "new B()", "B", "new A2()", "A2", "{ }", "A.prototype", "Object.create(new A())", "1", "undefined", "Object.freeze(new A())"]
            for a in range(0, len(uses), 5):
                if a >= 15 and kn in ("ffn", "meth", "gen", "asy"):
                    continue    # conversions of functions to numbers are not specified
                pre = "const mk = () => { class A { %s\n%s } return A; }; const A = mk(), A2 = mk(); class B extends A { }" % (body, us)
                body2 = "\n".join("for (let i = %d; i < %d; i++) try { log(i, A['u' + i](%s)); } catch (e) { log(i, e); }" % (a, min(a + 5, len(uses)), o) for o in objs)
                out.append((pre + "\n" + body2, rng.random() < 0.3))
    # branding twice, and objects other than a fresh one
    for kn, decl in kinds:
        for obj in ("{ }", "[ ]", "function () { }", "Object.freeze({ })", "Object.preventExtensions({ q: 1 })"):
            out.append(("function Base(o) { log('base'); return o; }\nclass A extends Base { pub = log('pub', 1); %s last = log('last', 2); static has(o) { return #x in o; } static put(o) { o.#x = 9; } }\n"
                        "const o = %s;\nfor (let i = 0; i < 3; i++) { try { log(new A(o) === o); } catch (e) { log(e); } try { log(A.has(o), o); } catch (e) { log(e); } try { A.put(o); } catch (e) { log(e); } }\n"
                        "class C extends A { #x = log('C'); static hasC(o) { return #x in o; } } try { log(new C(o)); } catch (e) { log(e); } log(C.hasC(o));" % (decl, "(%s)" % obj), False))
    # an initialiser throws or leaks this half way
    for i in range(4):
        fs = ["#a = log('a', leak(this, 'a'));", "b = log('b', leak(this, 'b'));", "#c = log('c', leak(this, 'c'));", "#m() { return 1; }"]
        out.append(("let box = null; function leak(o, w) { box = o; try { log(w, A.st(o)); } catch (e) { log('st', e); } if (w === stop) throw w; return w; }\nlet stop = '%s';\n"
                    "class A { %s static st(o) { return [#a in o, 'b' in o, #c in o, #m in o, o.#m()]; } constructor() { log('ctor', A.st(this)); } }\n"
                    "try { new A(); } catch (e) { log(e); } log(box, A.st(box)); class B extends A { #z = log('z', A.st(this)); constructor() { try { super(); } catch (e) { log('sup', e); } log('this', this); } }\n"
                    "try { new B(); } catch (e) { log(e); } stop = ''; try { new B(); } catch (e) { log(e); } try { log(new A()); } catch (e) { log(e); }" % ("abcd"[i], "\n".join(fs if i % 2 else fs[::-1])), False))
    # this, super() and returns in derived constructors
    rets = ["", "return;", "return undefined;", "return null;", "return 1;", "return 'x';", "return { r: 1 };", "return this;", "return [ ];", "return () => { };"]
    sups = ["super();", "", "super(); super();", "(() => super())();", "if (p) super();", "try { super(); } finally { log('fin', this); }", "try { this; } catch (e) { log(e); super(); }", "eval('super();');",
            "const f = () => this; super(); log('f', f() === this);", "super.m; super();", "log(super());", "for (const q of [1, 2]) { try { super(); } catch (e) { log(e); } }", "log([super(), this].length);"]
    progs = ["class D%d extends Base { f = log('f'); constructor(p) { log('in', new.target === D%d); %s %s } }\nfor (const p of [0, 1]) try { log(new D%d(p)); } catch (e) { log(e); }" % (
        (i, i, s_, r, i)) for i, (s_, r) in enumerate([(s_, r) for s_ in sups for r in rets])]
    for i in range(0, len(progs), 13):
        out.append(("class Base { constructor() { log('base', new.target.name); } m() { return 1; } }\n" + "\n".join(progs[i:i + 13]), False))
    bases = ["constructor() { return { br: 1 }; }", "constructor() { return 1; }", "", "constructor() { this.q = new.target === C; }", "constructor() { throw 'base'; }", "constructor() { new.target.prototype; return Object.create(new.target.prototype); }"]
    out += [("class B { %s }\nclass M extends B { mf = log('mf', this); }\nclass C extends M { cf = log('cf', this); constructor() { super(); log('c', this, this instanceof C); } }\ntry { log(new C()); } catch (e) { log(e); }\n"
             "try { log(Reflect.construct(C, [ ], M)); } catch (e) { log(e); } try { log(Reflect.construct(M, [ ], function () { })); } catch (e) { log(e); } try { log(C()); } catch (e) { log(e); }" % b, False) for b in bases]
    return out


# ---------------------------------------------------------------- C26: for-in and key listing
class Keys(Gen):
    """objects in prototype chains, enumerated by for-in and by the listing functions while being changed.
    Nothing is added, and no enumerability changed, during a for-in: the standard leaves that open."""
    NAMES = ["a", "b", "c", "d"]
    IDX = ["0", "1", "2", "7"]

    def key(self, src=True):
        x = self.r.random()
        if x < 0.6:
            return self.r.choice(self.NAMES)
        return self.r.choice(self.IDX)

    def q(self, k):
        return "'%s'" % k if not k.isdigit() or self.p(0.5) else k

    def obj(self, nm, protos):
        i = self.id()
        out = []
        kind = self.r.random()
        ks = [self.key() for _ in range(self.r.randint(0, 6))]
        lit = []
        for k in ks:
            j = self.id()
            lit.append(self.choose([(8, lambda: "%s: %d" % (k, j)), (1, lambda: "get %s() { log('g%d'); return %d; }" % (k, j, j)),
                                    (1, lambda: "set %s(v) { log('s%d', v); }" % (k, j)), (0.6, lambda: "[sA]: %d" % j), (0.4, lambda: "['%s']: %d" % (k, j)),
                                    (0.4, lambda: "%s() { }" % k)]))
        if kind < 0.62:
            out.append("const %s = { %s%s };" % (nm, "__proto__: %s%s" % (self.r.choice(protos), ", " if lit else "") if protos and self.p(0) else "", ", ".join(lit)))
        elif kind < 0.74:
            out.append("const %s = [%s];" % (nm, ", ".join(str(self.id()) if self.p(0.8) else "" for _ in range(self.r.randint(0, 4))) + ","))
        elif kind < 0.8:
            out.append("const %s = function () { };" % nm)
        elif kind < 0.86:
            out.append("const %s = new (class { %s })();" % (nm, " ".join("%s = %d;" % (k, self.id()) for k in ks)))
        elif kind < 0.91:
            out.append("const %s = (function (x, y) { return arguments; })(%s);" % (nm, ", ".join(str(self.id()) for _ in range(self.r.randint(0, 3)))))
        elif kind < 0.95:
            out.append("const %s = new Map();" % nm)
        else:
            out.append("const %s = Object.create(%s);" % (nm, self.r.choice(protos + ["null"])))
        for _ in range(self.r.randint(0, 4)):
            out.append(self.choose([
                (4, lambda: "%s[%s] = %d;" % (nm, self.q(self.key()), self.id())),
                (2, lambda: "delete %s[%s];" % (nm, self.q(self.key()))),
                (3, lambda: "Object.defineProperty(%s, %s, { value: %d, enumerable: %s, configurable: true, writable: true });" % (nm, self.q(self.key()), self.id(), self.pick("false", "false", "true"))),
                (1, lambda: "Object.defineProperty(%s, %s, { get() { log('G%d'); return 1; }, enumerable: %s, configurable: true });" % (nm, self.q(self.key()), self.id(), self.pick("false", "true"))),
                (1, lambda: "%s[sB] = %d;" % (nm, self.id())),
            ]))
        if protos and self.p(0.75):
            out.append("Object.setPrototypeOf(%s, %s);" % (nm, self.r.choice(protos + ["null"])))
        # failures of the set-up are part of the program
        return [out[0]] + ["try { %s } catch (e) { log('x%d', e); }" % (s, self.id()) for s in out[1:]]

    def o(self):
        return self.r.choice(self.objs)

    def change(self):
        """something allowed during a for-in"""
        return self.choose([
            (6, lambda: "log('d%d', delete %s[%s]);" % (self.id(), self.o(), self.q(self.key()))),
            (2, lambda: "if (Object.hasOwn(%s, '%s')) %s['%s'] = %d;" % (lambda o, k: (o, k, o, k, self.id()))(self.o(), self.key())),
            (1, lambda: "for (const k of Object.keys(%s)) delete %s[k];" % (lambda o: (o, o))(self.o())),
            (1, lambda: "log('w%d', %s);" % (self.id(), self.o())),
        ])

    def subject(self):
        x = self.r.random()
        if x < 0.9:
            return self.o()
        return self.pick("'abc'", "5", "null", "undefined", "true", "''", "(log('subj'), %s)" % self.o())

    def loop(self, d=0):
        i = self.id()
        v = "k%d" % i
        head, show = self.choose([
            (5, lambda: ("const %s" % v, v)),
            (3, lambda: ("let %s" % v, v)),
            (2, lambda: ("var %s" % v, v)),
            (1, lambda: ("tgt", "tgt")),
            (1, lambda: ("box.p", "box.p")),
            (1, lambda: ("box[log('ix%d', 'q')]" % i, "box.q")),
            (0.7, lambda: ("const [%s]" % v, v)),
            (0.5, lambda: ("const { length: %s }" % v, v)),
            (0.5, lambda: ("[tgt]", "tgt")),
        ])
        body = ["log('L%d', %s);" % (i, show)]
        for _ in range(self.r.randint(0, 2)):
            x = self.r.random()
            if x < 0.6:
                body.append("if (n++ < 12 && %s === '%s') { %s }" % (show, self.key(), self.change()) if self.p(0.6) else self.change())
            elif x < 0.7:
                body.append("keep[keep.length] = () => %s;" % show)
            elif x < 0.78:
                body.append("if (%s === '%s') %s;" % (show, self.key(), self.pick("break", "continue", "break out", "continue out")))
            elif x < 0.9 and d < 1:
                body.append(self.loop(d + 1))
            elif x < 0.93:
                body.append("if (%s === '%s') throw %d;" % (show, self.key(), i))
        s = "for (%s in %s) { %s }" % (head, self.subject(), " ".join(body))
        return s

    def listing(self):
        i = self.id()
        o = self.subject() if self.p(0.15) else self.o()
        f = self.pick("Object.keys", "Object.values", "Object.entries", "Object.getOwnPropertyNames", "Object.getOwnPropertySymbols", "Reflect.ownKeys", "Object.keys", "Object.entries")
        return self.choose([
            (6, lambda: "log('K%d', %s(%s));" % (i, f, o)),
            (2, lambda: "log('S%d', { ...%s, z: 1 });" % (i, o)),
            (2, lambda: "log('A%d', Object.assign({ b: 1 }, %s, %s));" % (i, o, self.o())),
            (1, lambda: "{ const { %s: x, ...rest } = %s; log('R%d', x, rest); }" % (self.key(), o, i)),
            (1, lambda: "log('H%d', Object.hasOwn(%s, %s), '%s' in %s);" % (i, self.o(), self.q(self.key()), self.key(), self.o())),
            (1, lambda: "log('E%d', Object.prototype.propertyIsEnumerable.call(%s, %s));" % (i, o, self.q(self.key()))),
            (1, lambda: "log('F%d', Object.fromEntries(Object.entries(%s)));" % (i, self.o())),
        ])

    def mutator(self):
        """a getter that changes later keys of the same object while values are listed"""
        o = self.o()
        k = self.key()
        return "Object.defineProperty(%s, '%s', { get() { log('M%d'); %s return %d; }, enumerable: true, configurable: true });" % (
            o, k, self.id(), self.pick("delete %s[%s];" % (o, self.q(self.key())), "hide(%s, '%s');" % (o, self.key()), "%s.zz = 1;" % o, "Object.defineProperty(%s, '%s', { value: 1, enumerable: true, configurable: true });" % (o, self.key())), self.id())

    def program(self):
        out = ["const keep = [], box = { }; let tgt, n = 0;"]
        self.objs = []
        for nm in ["p", "o", "u"][:self.r.randint(1, 3)]:
            out += self.obj(nm, self.objs[:])
            self.objs.append(nm)
        for _ in range(self.r.randint(2, 4)):
            i = self.id()
            x = self.r.random()
            if x < 0.55:
                # a getter reached by a for-in body could add keys; for-in itself calls none
                out.append("try { out: for (let once = 0; once < %d; once++) { %s } } catch (e) { log('c%d', e); }" % (self.pick(1, 1, 2), self.loop(), i))
            elif x < 0.65:
                out.append("function* g%d() { for (const k in %s) { %s yield k; } } for (const y of g%d()) log('Y%d', y);" % (i, self.o(), self.change(), i, i))
            elif x < 0.72:
                out.append("try { %s } catch (e) { log('c%d', e); }" % (self.mutator(), i))
                out.append("try { %s } catch (e) { log('c%d', e); }" % (self.listing(), self.id()))
            else:
                out.append("try { %s } catch (e) { log('c%d', e); }" % (self.listing(), i))
        out.append("log('end', %s);" % ", ".join(self.objs))
        out.append("for (let i = 0; i < keep.length && i < 10; i++) log('kept', keep[i]());")
        return "\n".join(out), self.p(0.15)


def c26(rng):
    return Keys(rng).program()


# ---------------------------------------------------------------- C27: order of evaluation
class Order(Gen):
    """nested expressions every step of which is logged"""

    def leaf(self):
        i = self.id()
        return self.choose([
            (4, lambda: "log('n%d', %d)" % (i, self.r.randint(0, 5))),
            (1, lambda: "log('s%d', '%s')" % (i, self.pick("m", "k", "7"))),
            (1, lambda: "log('u%d', %s)" % (i, self.pick("undefined", "null", "true", "false"))),
            (3, lambda: "val(%d, %s)" % (i, self.pick("1", "2", "'m'", "'3'", "null", "undefined", "true"))),
            (2, lambda: "obj(%d)" % i),
            (2, lambda: self.pick("x", "y", "o")),
            (0.5, lambda: "thr(%d)" % i),
            (0.3, lambda: "sym"),
            (0.5, lambda: "big(%d)" % i),
        ])

    def ref(self, d):
        i = self.id()
        return self.choose([
            (2, lambda: self.pick("x", "y")),
            (3, lambda: "%s.%s" % (self.base(d), self.pick("m", "k", "f"))),
            (4, lambda: "%s[%s]" % (self.base(d), self.ex(d - 1))),
            (0.5, lambda: "con" ),
            (0.3, lambda: "undef%d" % i),
        ])

    def base(self, d):
        i = self.id()
        return self.choose([(4, lambda: "obj(%d)" % i), (2, lambda: "o"), (1, lambda: "log('b%d', o)" % i), (0.4, lambda: self.pick("null", "undefined", "(5)", "'str'")),
                            (1, lambda: "(%s)" % self.ex(d - 1) if d > 1 else "o"), (0.5, lambda: "thr(%d)" % i)])

    def args(self, d):
        return ", ".join(self.pick("", "", "", "...") + self.ex(d - 1) if self.p(0.9) else "...[%s, %s]" % (self.ex(d - 2), self.ex(d - 2)) for _ in range(self.r.randint(0, 3))).replace("...log", "...it")

    def fn(self, d):
        i = self.id()
        return self.choose([(3, lambda: "fun(%d)" % i), (3, lambda: "%s.f" % self.base(d)), (2, lambda: "%s[%s]" % (self.base(d), self.ex(d - 1))), (0.5, lambda: "o"), (0.5, lambda: "undefined"),
                            (0.5, lambda: "fun")])

    def prop(self, d):
        i = self.id()
        return self.choose([(3, lambda: "k: %s" % self.ex(d - 1)), (3, lambda: "[%s]: %s" % (self.ex(d - 1), self.ex(d - 1))), (1, lambda: "...%s" % self.pick("obj(%d)" % i, "o", "null", "val(%d, 1)" % i)),
                            (1, lambda: "[%s]() { }" % self.ex(d - 1)), (1, lambda: "get [%s]() { return 1; }" % self.ex(d - 1))])

    def pat(self, d):
        i = self.id()
        tgts = lambda: self.pick("x", "y", "%s.k" % self.base(0), "%s[%s]" % (self.base(0), self.leaf()))
        dflt = lambda: self.pick("", "", " = %s" % self.ex(d - 1))
        if self.p(0.5):
            return "{ %s }" % ", ".join("%s: %s%s" % (self.pick("k", "m", "[%s]" % self.ex(d - 2)), tgts(), dflt()) for _ in range(self.r.randint(0, 3)))
        return "[%s]" % ", ".join(tgts() + dflt() for _ in range(self.r.randint(0, 3)))

    def ex(self, d):
        if d <= 0:
            return self.leaf()
        i = self.id()
        e = lambda k=1: self.ex(d - k)
        bins = ["+", "-", "*", "%", "<", "<=", ">", ">=", "==", "!=", "===", "!==", "&", "|", "^", ">>"]
        return "(" + self.choose([
            (9, lambda: "%s %s %s" % (e(), self.r.choice(bins), e())),
            (1, lambda: "%s in %s" % (e(), self.base(d))),
            (1, lambda: "%s instanceof %s" % (e(), self.pick("fun", "obj(%d)" % i, "HI", "5"))),
            (3, lambda: "%s %s %s" % (e(), self.pick("&&", "||"), e())),
            (1, lambda: "%s ?? %s" % (e(), e())),
            (2, lambda: "%s ? %s : %s" % (e(), e(), e())),
            (2, lambda: "%s, %s" % (e(), e())),
            (6, lambda: "%s = %s" % (self.ref(d), e())),
            (5, lambda: "%s %s= %s" % (self.ref(d), self.pick("+", "-", "*", "|", "&", "^", ">>", "%"), e())),
            (3, lambda: "%s %s= %s" % (self.ref(d), self.pick("&&", "||", "??"), e())),
            (2, lambda: "%s%s" % (self.ref(d), self.pick("++", "--"))),
            (2, lambda: "%s%s" % (self.pick("++", "--"), self.ref(d))),
            (2, lambda: "%s %s" % (self.pick("-", "~", "!", "typeof", "void", "+"), e())),
            (1, lambda: "delete %s" % self.pick("%s.k" % self.base(d), "%s[%s]" % (self.base(d), e()))),
            (5, lambda: "%s(%s)" % (self.fn(d), self.args(d))),
            (2, lambda: "new %s(%s)" % (self.pick("fun", "Cl", "(%s)" % e()), self.args(d))),
            (3, lambda: "%s?.%s" % (self.base(d), self.pick("k", "k.m", "[%s]" % e(), "f(%s)" % self.args(d), "f?.(%s)" % self.args(d), "m[%s]" % e(), "k?.m.z"))),
            (2, lambda: "%s" % self.ref(d)),
            (2, lambda: "[%s]" % self.args(d)),
            (2, lambda: "{ %s }" % ", ".join(self.prop(d) for _ in range(self.r.randint(0, 3)))),
            (2, lambda: "`a${%s}b${%s}`" % (e(), e())),
            (2, lambda: "%s = %s" % (self.pat(d), self.pick("obj(%d)" % i, "it(%d, 1, 2)" % i, "it(%d, obj(%d))" % (i, self.id())))),
            (0.7, lambda: "class { static [%s] = %s; static { %s; } [%s]() { } }" % (e(), e(), e(), e(2))),
        ]) + ")"

    def program(self):
        out = ["""const sym = sA, con = 1; let x = 1, y = 'y', n = 0;
function lim() { if (n++ > 60) throw 'limit'; }
function prims(i, v) { return %s; }
function val(i, v) { log('v' + i); lim(); return { [Symbol.toPrimitive](h) { log('tp' + i, h); return v; } }; }
function big(i) { log('B' + i); return { valueOf() { log('vo' + i); return %s; }, toString() { log('ts' + i); return %s; } }; }
function obj(i) { log('o' + i); lim(); return { get k() { log('gk' + i); return %s; }, set k(v) { log('sk' + i, v); }, get m() { log('gm' + i); return %s; }, set m(v) { log('sm' + i, v); },
  get f() { log('gf' + i); return function (...a) { log('cf' + i, this === undefined, ...a); return %s; }; },
  valueOf() { log('vo' + i); return %s; }, toString() { log('ts' + i); return %s; } }; }
function fun(...a) { log('fun', ...a); return function (...b) { log('in', ...b); return a[0]; }; }
function thr(i) { log('T' + i); throw i; }
function it(i, ...vs) { log('it' + i); let j = 0; return { get [Symbol.iterator]() { log('gi' + i); return function () { log('ci' + i); return { next() { log('nx' + i); return j < vs.length ? { value: vs[j++], done: false } : { value: undefined, done: true }; }, return(v) { log('rt' + i); return { }; } }; }; } }; }
const HI = { get [Symbol.hasInstance]() { log('ghi'); return (v) => { log('hi', v); return %s; }; } };
class Cl { constructor(...a) { log('cl', ...a); } }
const o = { k: 1, m: { z: 2 }, f() { log('of', this === o); return %s; } };""" % (
            "v", self.pick("1", "{ }", "2", "'b'"), self.pick("'t'", "'1'", "{ }"), self.pick("1", "'kk'", "null", "undefined", "{ m: 3 }", "{ z: 1, k: 2 }"), self.pick("2", "'m'", "{ z: 4 }", "undefined"),
            self.pick("1", "undefined", "this", "a"), self.pick("3", "'v'", "{ }"), self.pick("'s'", "'k'", "4"), self.pick("1", "0", "''", "'x'"), self.pick("1", "null", "this"))]
        for _ in range(self.r.randint(2, 5)):
            i = self.id()
            out.append("try { log('R%d', %s); } catch (e) { log('C%d', e); }" % (i, self.ex(self.r.randint(1, 3)), i))
        # class heritage and keys inside sloppy functions are not strict in the engine (known finding)
        return "\n".join(out), self.p(0.3) or any("(class {" in x for x in out)


def c27(rng):
    return Order(rng).program()


# ---------------------------------------------------------------- C35: this, arguments, new.target
class Calls(Gen):
    """functions of every kind called in every way"""

    def val(self):
        i = self.id()
        return self.pick("1", "'s%d'" % i, "null", "undefined", "true", "o", "p", "sA", "{ t: %d }" % i, "[%d]" % i)

    def report(self, arrow=False, args=True):
        i = self.id()
        a = "log('t%d', typeof this, this%s%s);" % (i, ", new.target === undefined, new.target === %s" % self.pick("F0", "F1", "K0", "K1"), ", arguments.length, ...arguments" if args else "")
        return a

    def body(self, d=0, args=True):
        out = [self.report(args=args)]
        if d < 2:
            for _ in range(self.r.randint(0, 2)):
                i = self.id()
                out.append(self.choose([
                    (3, lambda: "(() => { %s })(%s);" % (self.body(d + 1), self.val())),
                    (2, lambda: "log('a%d', (() => this === undefined)(), (() => new.target === undefined)());" % i),
                    (1, lambda: "(() => { log('A%d', arguments.length); arguments[0] = %d; })();" % (i, i)),
                    (1, lambda: "log('e%d', eval('this;') === this);" % i),
                    (1, lambda: "(function () { %s })%s;" % (self.body(d + 1), self.pick("()", ".call(%s)" % self.val(), ".call(this)", ".apply(this, arguments)"))),
                    (1, lambda: "if (new.target) this.x%d = %d;" % (i, i)),
                    (1, lambda: "if (depth++ < 3) { log('r%d', %s); }" % (i, self.call())),
                ]))
        x = self.r.random()
        if d == 0 and x < 0.5:
            out.append("return %s;" % self.pick(self.val(), "this", "arguments.length", "{ ret: %d }" % self.id(), "() => this", "new.target"))
        return " ".join(out)

    def strict(self):
        return "'use strict'; " if False else ""

    def params(self):
        return self.pick("", "a", "a, b", "a, b = 2", "a, b, c, d", "...r", "a, ...r", "{ t } = { t: 1 }", "a = 1, b")

    def func(self, nm):
        """source of a definition of nm; returns kind"""
        i = self.id()
        return self.choose([
            (6, lambda: "function %s(%s) { %s }" % (nm, self.params(), self.body())),
            (2, lambda: "const %s = function (%s) { %s };" % (nm, self.params(), self.body())),
            (2, lambda: "const %s = (%s) => { %s };" % (nm, self.params(), self.body())),
            (1, lambda: "const %s = { m(%s) { %s } }.m;" % (nm, self.params(), self.body())),
            (1, lambda: "const %s = class { static m(%s) { %s } }.m;" % (nm, self.params(), self.body())),
            (0.7, lambda: "function* %s(%s) { %s yield this; }" % (nm, self.params(), self.body())),
            (0.7, lambda: "async function %s(%s) { %s }" % (nm, self.params(), self.body())),
            (2, lambda: "const %s = %s.bind(%s%s);" % (nm, self.pick(*self.fs), self.val(), "".join(", " + self.val() for _ in range(self.r.randint(0, 3)))) if self.fs else "function %s() { %s }" % (nm, self.body())),
        ])

    def cls(self, nm):
        h = self.pick("", "", " extends " + self.r.choice(self.ks)) if self.ks else self.pick("", "", " extends F0")
        if h:
            c = "constructor(a, ...r) { log('k', new.target === %s, ...r); super(%s); %s }" % (nm, self.pick("", "a", "a, ...r", "...r"), self.report())
        else:
            c = "constructor(%s) { %s }" % (self.params(), self.body())
        return "class %s%s { %s m(%s) { %s } static s(%s) { %s } get g() { %s } set g(v) { %s } }" % (
            nm, h, c if self.p(0.8) else "", self.params(), self.body(1), self.params(), self.body(1), self.body(1), self.body(1))

    def call(self):
        f = self.r.choice(self.fs + self.ks)
        g = self.r.choice(self.fs + self.ks)
        args = ", ".join(self.pick(self.val(), self.val(), "...[%s, %s]" % (self.val(), self.val())) for _ in range(self.r.randint(0, 3)))
        c = ", " if args else ""
        lst = "[%s]" % ", ".join(self.val() for _ in range(self.r.randint(0, 3)))
        return self.choose([
            (4, lambda: "%s(%s)" % (f, args)),
            (3, lambda: "new %s(%s)" % (f, args)),
            (1, lambda: "new %s" % f),
            (4, lambda: "%s.call(%s%s%s)" % (f, self.val(), c, args)),
            (3, lambda: "%s.apply(%s, %s)" % (f, self.val(), self.pick(lst, lst, lst, "null", "undefined", "{ length: 2, 0: 'x', 1: 'y' }", "1", "{ length: 1 }", "{ get length() { log('gl'); return 1; }, get 0() { log('g0'); return 5; } }"))),
            (3, lambda: "Reflect.apply(%s, %s, %s)" % (f, self.val(), self.pick(lst, lst, lst, "null", "{ length: 1, 0: 4 }"))),
            (3, lambda: "Reflect.construct(%s, %s, %s)" % (f, lst, self.pick(g, g, "o", "() => 1"))),
            (1, lambda: "Reflect.construct(%s, %s)" % (f, lst)),
            (3, lambda: "%s.bind(%s%s%s)(%s)" % (f, self.val(), c, args, self.val())),
            (2, lambda: "new (%s.bind(%s%s%s))(%s)" % (f, self.val(), c, args, self.val())),
            (1, lambda: "%s.bind(%s, 1).bind(%s, 2)%s(3)" % (f, self.val(), self.val(), self.pick("", ".call(5)" if False else ""))),
            (2, lambda: "o.f = %s, o.f(%s)" % (f, args)),
            (1, lambda: "(o.f = %s, (o.f)(%s))" % (f, args)),
            (1, lambda: "(0, %s)(%s)" % (f, args)),
            (1, lambda: "(o.f = %s, (0, o.f)(%s))" % (f, args)),
            (1, lambda: "(o.f = %s, o?.f(%s))" % (f, args)),
            (1, lambda: "(Object.defineProperty(%s, 'acc', { get: %s, configurable: true }), %s.acc)" % (self.pick("o", "o"), f, self.pick("o", "p"))),
            (1, lambda: "(Object.defineProperty(o, 'acc', { set: %s, configurable: true }), %s.acc = %s)" % (f, self.pick("o", "p"), self.val())),
            (1, lambda: "(Object.defineProperty(Number.prototype, 'nm', { get: %s, configurable: true }), 5..nm)" % f if False else "%s.length" % f),
            (1, lambda: "%s.name" % self.pick(*(self.fs + self.ks))),
            (1, lambda: "new %s(%s).m(%s)" % (self.pick(*self.ks), self.val(), args) if self.ks else "0"),
            (1, lambda: "%s.s(%s)" % (self.pick(*self.ks), args) if self.ks else "0"),
            (1, lambda: "new %s().g" % self.pick(*self.ks) if self.ks else "0"),
            (1, lambda: "new %s().g = %s" % (self.pick(*self.ks), self.val()) if self.ks else "0"),
            (1, lambda: "%s instanceof %s" % (self.pick("o", "p"), f)),
            (0.5, lambda: "[...%s(%s)]" % (f, args)),
            (1, lambda: "tag%s`x${%s}y`" % ("", self.val()) if False else "%s(...%s)" % (f, lst)),
        ])

    def program(self):
        self.fs, self.ks = [], []
        out = ["let depth = 0; const o = { }, p = Object.create(o); o.f = undefined;"]
        for i in range(self.r.randint(1, 3)):
            out.append(self.func("F%d" % i) if i else "function F0(%s) { %s }" % (self.params(), "log('F0', typeof this, new.target === undefined); %s" % self.pick("", "return this;", "return { r: 1 };", "return 1;")))
            self.fs.append("F%d" % i)
        for i in range(self.r.randint(0, 2)):
            out.append(self.cls("K%d" % i))
            self.ks.append("K%d" % i)
        names = self.fs + self.ks
        src = "\n".join(out)
        for n in ["F0", "F1", "K0", "K1"]:
            if n not in names:
                src = "const %s = null;\n" % n + src
        out = [src]
        for _ in range(self.r.randint(3, 7)):
            i = self.id()
            out.append("try { depth = 0; log('R%d', %s); } catch (e) { log('C%d', e); }" % (i, self.call(), i))
        return "\n".join(out), self.p(0.3)


def c35(rng):
    return Calls(rng).program()
