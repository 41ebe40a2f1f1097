"""JavaScript source text -> the table of syntax nodes that spec/JSCore.tla executes.

A program is the body of a function.  The parser covers the part of the language that JSCore
specifies; it requires semicolons.  The static part of scope analysis that the standard does when a
function is parsed (declared names, parameter kinds) is recorded in the nodes."""
import re

PUNCT = ["...", ">>>=", "**=", "<<=", ">>=", "&&=", "||=", "??=", "===", "!==", ">>>", "=>", "?.", "&&", "||", "??",
         "==", "!=", "<=", ">=", "++", "--", "+=", "-=", "*=", "%=", "|=", "&=", "^=", "**", "<<", ">>",
         "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "+", "-", "*", "%", "!", "~", "?", ":", "=", ".", "&", "|", "^"]
KEYWORDS = set("""break case catch class const continue debugger default delete do else export extends finally for function if
import in instanceof new return super switch this throw try typeof var void while with null true false let static yield await
async of get set""".split())
RESERVED = set("""break case catch class const continue debugger default delete do else extends finally for function if
in instanceof new return super switch this throw try typeof var void while with null true false""".split())
IDRE = re.compile(r"[A-Za-z_$][A-Za-z0-9_$]*")
NUMRE = re.compile(r"[0-9]+n?")


class ParseError(Exception):
    pass


def tokenize(src):
    """[(kind, value)]; kinds: id, num, str, tmpl, p (punctuator), priv, eof"""
    i, n, out = 0, len(src), []
    while True:
        while i < n and (src[i] in " \t\n\r" or src.startswith("//", i) or src.startswith("/*", i)):
            if src.startswith("//", i):
                j = src.find("\n", i)
                i = n if j < 0 else j
            elif src.startswith("/*", i):
                i = src.index("*/", i) + 2
            else:
                i += 1
        if i >= n:
            out.append(("eof", ""))
            return out
        c = src[i]
        if c == "#":
            m = IDRE.match(src, i + 1)
            out.append(("priv", m.group()))
            i = m.end()
        elif IDRE.match(src, i):
            m = IDRE.match(src, i)
            out.append(("id", m.group()))
            i = m.end()
        elif c.isdigit():
            m = NUMRE.match(src, i)
            out.append(("num", m.group()))
            i = m.end()
        elif c in "'\"":
            j = src.index(c, i + 1)
            out.append(("str", src[i + 1:j]))
            i = j + 1
        elif c == "`":
            quasis, exprs, j = [], [], i + 1
            cur = ""
            while src[j] != "`":
                if src.startswith("${", j):
                    depth, k = 1, j + 2
                    while depth:
                        if src[k] == "`":
                            k = _skip_tmpl(src, k)
                            continue
                        if src[k] == "{":
                            depth += 1
                        elif src[k] == "}":
                            depth -= 1
                        k += 1
                    quasis.append(cur)
                    exprs.append(src[j + 2:k - 1])
                    cur, j = "", k
                else:
                    cur += src[j]
                    j += 1
            quasis.append(cur)
            out.append(("tmpl", (quasis, exprs)))
            i = j + 1
        else:
            for p in PUNCT:
                if src.startswith(p, i):
                    if p == "?." and i + 2 < n and src[i + 2].isdigit():
                        p = "?"
                    out.append(("p", p))
                    i += len(p)
                    break
            else:
                raise ParseError("character %r" % c)


def _skip_tmpl(src, k):
    k += 1
    while src[k] != "`":
        if src.startswith("${", k):
            d, k = 1, k + 2
            while d:
                if src[k] == "`":
                    k = _skip_tmpl(src, k)
                    continue
                d += {"{": 1, "}": -1}.get(src[k], 0)
                k += 1
        else:
            k += 1
    return k + 1


class Fn:
    """what is being collected about a function while its code is parsed"""

    def __init__(self, arrow=False, meth=False, is_async=False, gen=False, st=False):
        self.vars, self.fns, self.lex = [], [], []
        self.arrow, self.meth, self.is_async, self.gen, self.st = arrow, meth, is_async, gen, st
        self.uses_args = False


class Blk:
    def __init__(self, top=None):
        self.lex, self.fns, self.top = [], [], top


BINPREC = {"||": 1, "??": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, ">": 7, "<=": 7,
           ">=": 7, "in": 7, "instanceof": 7, "<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "%": 10}


class Parser:
    def __init__(self, src, strict):
        self.toks = tokenize(src)
        self.i = 0
        self.t = []
        self.fnstack = []
        self.blks = []
        self.strict = strict
        self.noin = False

    # ------------------------------------------------------------ helpers
    def node(self, k, **kw):
        kw["k"] = k
        self.t.append(kw)
        return len(self.t)

    def n(self, i):
        return self.t[i - 1]

    def peek(self, d=0):
        return self.toks[min(self.i + d, len(self.toks) - 1)]

    def isp(self, v, d=0):
        return self.peek(d) == ("p", v)

    def isid(self, v, d=0):
        return self.peek(d) == ("id", v)

    def eat(self, v):
        if self.isp(v):
            self.i += 1
            return True
        return False

    def eatid(self, v):
        if self.isid(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not (self.eat(v) or self.eatid(v)):
            raise ParseError("expected %s, got %s near %s" % (v, self.peek(), self.toks[max(0, self.i - 8):self.i + 3]))

    def name(self):
        k, v = self.peek()
        if k != "id" or v in RESERVED:
            raise ParseError("name expected, got %s near %s" % (v, self.toks[max(0, self.i - 8):self.i + 3]))
        self.i += 1
        return v

    @property
    def fn(self):
        return self.fnstack[-1]

    def ident(self, nm):
        if nm == "arguments":
            for f in reversed(self.fnstack):
                f.uses_args = True
                if not f.arrow:
                    break
        return self.node("id", n=nm, st=self.strict)

    # ------------------------------------------------------------ functions
    def function(self, nm="", arrow=False, meth=False, is_async=False, gen=False, params=None, kind=""):
        """at '(' of the parameters (or, for arrows, at the parameter list or single name)"""
        old, oldin, oldblks = self.strict, self.noin, self.blks
        self.noin = False
        self.blks = []
        f = Fn(arrow, meth, is_async, gen)
        self.fnstack.append(f)
        start = self.i
        # a "use strict" directive makes the parameters strict too
        plist, simple, pexp, pn, ln = self.params(arrow)
        if arrow:
            self.need("=>")
        ret = None
        if arrow and not self.isp("{"):
            b = Blk(f)
            self.blks.append(b)
            self.noin = oldin
            e = self.assign()
            body = self.node("ret", e=e, agen=False)
        else:
            self.need("{")
            if self.peek() == ("str", "use strict"):
                self.strict = True
            b = Blk(f)
            self.blks.append(b)
            lst = []
            while not self.isp("}"):
                lst.append(self.statement())
            self.need("}")
            body = self.node("blk", b=lst, lex=[], fns=[])
        self.fnstack.pop()
        st, self.strict, self.noin, self.blks = self.strict, old, oldin, oldblks
        lexn = [x[0] for x in b.lex]
        fnn = [x[0] for x in f.fns]
        args = f.uses_args and not arrow and "arguments" not in pn and (
            pexp or ("arguments" not in lexn and "arguments" not in fnn))
        seen, fns = set(), []
        for x in reversed(f.fns):       # the last declaration of a name wins
            if x[0] not in seen:
                seen.add(x[0])
                fns.insert(0, x)
        return self.node("fdef", nm=nm, len=ln, params=plist, simple=simple, pexp=pexp, pn=pn, args=args,
                         vars=sorted(set(f.vars)), fns=fns, lex=b.lex, body=body, arrow=arrow, meth=meth,
                         gen=gen, st=st, **{"async": is_async})

    def params(self, arrow):
        plist, simple, pexp, ln, counting = [], True, False, 0, True
        pn = []
        self.blks.append(Blk(None))
        if arrow and not self.isp("("):
            nm = self.name()
            plist.append({"t": self.node("id", n=nm, st=self.strict), "d": 0, "rest": False})
            pn, ln = [nm], 1
        else:
            self.need("(")
            while not self.isp(")"):
                rest = self.eat("...")
                t = self.target()
                d = 0
                if self.eat("="):
                    d = self.assign()
                    pexp = True
                plist.append({"t": t, "d": d, "rest": rest})
                if self.n(t)["k"] != "id" or d or rest:
                    simple = False
                if self.has_expr(t):
                    pexp = True
                if d or rest:
                    counting = False
                if counting:
                    ln += 1
                pn += self.bound(t)
                if not self.eat(","):
                    break
            self.need(")")
        self.blks.pop()
        return plist, simple, pexp, pn, ln

    def has_expr(self, t):
        x = self.n(t)
        if x["k"] == "parr":
            return any(e["t"] and (e["d"] or self.has_expr(e["t"])) for e in x["els"])
        if x["k"] == "pobj":
            return any(p["d"] or p["ck"] or self.has_expr(p["t"]) for p in x["props"])
        return False

    def bound(self, t):
        x = self.n(t)
        if x["k"] == "id":
            return [x["n"]]
        if x["k"] == "parr":
            return [b for e in x["els"] if e["t"] for b in self.bound(e["t"])]
        if x["k"] == "pobj":
            return [b for p in x["props"] for b in self.bound(p["t"])]
        return []

    # ------------------------------------------------------------ binding patterns
    def target(self):
        if self.isp("["):
            self.i += 1
            els = []
            while not self.isp("]"):
                if self.isp(","):
                    self.i += 1
                    els.append({"t": 0, "d": 0, "rest": False})
                    continue
                rest = self.eat("...")
                t = self.target()
                d = self.assign_in() if self.eat("=") else 0
                els.append({"t": t, "d": d, "rest": rest})
                if not self.eat(","):
                    break
            self.need("]")
            return self.node("parr", els=els)
        if self.isp("{"):
            self.i += 1
            props = []
            while not self.isp("}"):
                if self.eat("..."):
                    props.append({"key": "", "ck": 0, "t": self.target(), "d": 0, "rest": True})
                else:
                    key, ck, nm = self.propname()
                    if self.eat(":"):
                        t = self.target()
                    else:
                        t = self.ident(key)
                    d = self.assign_in() if self.eat("=") else 0
                    props.append({"key": key, "ck": ck, "t": t, "d": d, "rest": False})
                if not self.eat(","):
                    break
            self.need("}")
            return self.node("pobj", props=props)
        return self.ident(self.name())

    def propname(self):
        """(key, computed key node, is a name)"""
        k, v = self.peek()
        if k == "id":
            self.i += 1
            return v, 0, True
        if k in ("str", "num"):
            self.i += 1
            return str(int(v)) if k == "num" else v, 0, False
        if self.eat("["):
            e = self.assign_in()
            self.need("]")
            return "", e, False
        raise ParseError("property name expected, got %s" % (v,))

    def to_pattern(self, e):
        x = self.n(e)
        if x["k"] == "arr":
            els = []
            for el in x["els"]:
                if el == 0:
                    els.append({"t": 0, "d": 0, "rest": False})
                    continue
                y = self.n(el)
                if y["k"] == "spr":
                    els.append({"t": self.to_pattern(y["e"]), "d": 0, "rest": True})
                elif y["k"] == "asg" and y["op"] == "=":
                    els.append({"t": self.to_pattern(y["t"]), "d": y["e"], "rest": False})
                else:
                    els.append({"t": self.to_pattern(el), "d": 0, "rest": False})
            return self.node("parr", els=els)
        if x["k"] == "obj":
            props = []
            for p in x["props"]:
                if p["t"] == "spread":
                    props.append({"key": "", "ck": 0, "t": self.to_pattern(p["v"]), "d": 0, "rest": True})
                    continue
                y = self.n(p["v"])
                if y["k"] == "asg" and y["op"] == "=":
                    props.append({"key": p["key"], "ck": p["ck"], "t": self.to_pattern(y["t"]), "d": y["e"], "rest": False})
                else:
                    props.append({"key": p["key"], "ck": p["ck"], "t": self.to_pattern(p["v"]), "d": 0, "rest": False})
            return self.node("pobj", props=props)
        return e

    # ------------------------------------------------------------ expressions
    def expr(self):
        e = self.assign()
        if self.isp(","):
            es = [e]
            while self.eat(","):
                es.append(self.assign())
            return self.node("seq", es=es)
        return e

    def assign_in(self):
        old, self.noin = self.noin, False
        e = self.assign()
        self.noin = old
        return e

    def expr_in(self):
        old, self.noin = self.noin, False
        e = self.expr()
        self.noin = old
        return e

    def is_arrow(self, d):
        """is there an arrow function whose parameters start at token offset d"""
        if self.peek(d)[0] == "id" and self.peek(d)[1] not in RESERVED and self.isp("=>", d + 1):
            return True
        if not self.isp("(", d):
            return False
        depth = 0
        while True:
            tk = self.peek(d)
            if tk[0] == "eof":
                return False
            if tk[0] == "p" and tk[1] in "([{":
                depth += 1
            elif tk[0] == "p" and tk[1] in ")]}":
                depth -= 1
                if depth == 0:
                    return self.isp("=>", d + 1)
            d += 1

    def assign(self):
        if self.isid("async") and self.is_arrow(1):
            self.i += 1
            return self.node("fn", f=self.function(arrow=True, is_async=True), anon=True, plain=True)
        if self.is_arrow(0):
            return self.node("fn", f=self.function(arrow=True), anon=True, plain=True)
        if self.isid("yield") and self.fnstack and self.fn.gen:
            self.i += 1
            if self.eat("*"):
                return self.node("yields", e=self.assign(), **{"async": self.fn.is_async})
            k, v = self.peek()
            if (k == "p" and v in (")", "]", "}", ";", ",", ":")) or k == "eof" or (k == "id" and v in ("in", "of")):
                return self.node("yield", e=0, **{"async": self.fn.is_async})
            return self.node("yield", e=self.assign(), **{"async": self.fn.is_async})
        e = self.cond()
        k, v = self.peek()
        if k == "p" and v in ("=", "+=", "-=", "*=", "%=", "|=", "&=", "^=", ">>=", "&&=", "||=", "??="):
            self.i += 1
            t = self.to_pattern(e) if v == "=" else e
            return self.node("asg", op=v, t=t, e=self.assign())
        return e

    def cond(self):
        c = self.binary(0)
        if self.eat("?"):
            a = self.assign_in()
            self.need(":")
            return self.node("cond", c=c, a=a, b=self.assign())
        return c

    def binary(self, prec):
        if self.peek()[0] == "priv" and self.isid("in", 1):
            nm = self.peek()[1]
            self.i += 2
            left = self.node("pin", n=nm, e=self.binary(8))
        else:
            left = self.unary()
        while True:
            k, v = self.peek()
            if v not in BINPREC or k not in ("p", "id") or (k == "id") != (v in ("in", "instanceof")) or BINPREC[v] < max(prec, 1):
                return left
            if v == "in" and self.noin:
                return left
            p = BINPREC[v]
            if p < prec:
                return left
            self.i += 1
            right = self.binary(p + 1)
            if v in ("&&", "||", "??"):
                left = self.node("lop", op=v, a=left, b=right)
            else:
                left = self.node("bin", op=v, a=left, b=right)

    def unary(self):
        k, v = self.peek()
        if k == "p" and v in ("!", "+", "-", "~") or k == "id" and v in ("typeof", "void", "delete"):
            self.i += 1
            return self.node("un", op=v, a=self.unary())
        if k == "p" and v in ("++", "--"):
            self.i += 1
            return self.node("upd", op=v, pre=True, t=self.unary())
        if k == "id" and v == "await" and self.fnstack and self.fn.is_async:
            self.i += 1
            return self.node("await", e=self.unary())
        e = self.lhs()
        if self.isp("++") or self.isp("--"):
            op = self.peek()[1]
            self.i += 1
            return self.node("upd", op=op, pre=False, t=e)
        return e

    def args(self):
        self.need("(")
        out = []
        while not self.isp(")"):
            if self.eat("..."):
                out.append(self.node("spr", e=self.assign_in()))
            else:
                out.append(self.assign_in())
            if not self.eat(","):
                break
        self.need(")")
        return out

    def lhs(self):
        if self.isid("new"):
            if self.isp(".", 1):
                self.i += 3
                e = self.node("nt")
            else:
                self.i += 1
                if self.isid("new"):
                    f = self.lhs()
                else:
                    f = self.member_only(self.primary())
                e = self.node("new", f=f, args=self.args() if self.isp("(") else [])
        elif self.isid("super"):
            self.i += 1
            if self.isp("("):
                e = self.node("scall", args=self.args())
            elif self.eat("."):
                e = self.node("smem", key=self.anyname(), st=self.strict)
            else:
                self.need("[")
                e = self.node("sidx", e=self.expr_in(), st=self.strict)
                self.need("]")
        else:
            e = self.primary()
        chain = False
        while True:
            if self.isp("."):
                self.i += 1
                e = self.dot(e, False)
            elif self.isp("?."):
                self.i += 1
                chain = True
                if self.isp("("):
                    e = self.node("call", f=e, args=self.args(), opt=True)
                elif self.eat("["):
                    e = self.node("idx", o=e, e=self.expr_in(), opt=True, st=self.strict)
                    self.need("]")
                else:
                    e = self.dot(e, True)
            elif self.isp("["):
                self.i += 1
                e = self.node("idx", o=e, e=self.expr_in(), opt=False, st=self.strict)
                self.need("]")
            elif self.isp("("):
                x = self.n(e)
                if x["k"] == "id" and x["n"] == "eval":
                    e = self.eval_()
                    continue
                e = self.node("call", f=e, args=self.args(), opt=False)
            elif self.peek()[0] == "tmpl":
                e = self.tagged(e)
            else:
                return self.node("och", e=e) if chain else e

    def eval_(self):
        """direct eval of a string literal: a statement list whose last statement is an expression"""
        self.need("(")
        k, v = self.peek()
        if k != "str":
            raise ParseError("eval of a literal only")
        self.i += 1
        self.need(")")
        saved = self.toks, self.i, self.blks, self.strict, self.noin
        self.toks, self.i = tokenize(v), 0
        f = Fn(arrow=True)
        b = Blk(f)
        self.blks, self.noin = [b], False
        self.fnstack.append(f)
        if self.peek() == ("str", "use strict"):
            self.strict = True
        lst = []
        while self.peek()[0] != "eof":
            lst.append(self.statement())
        self.fnstack.pop()
        last = self.n(lst[-1])
        if last["k"] != "expr":
            raise ParseError("eval must end with an expression")
        body = self.node("blk", b=lst[:-1], lex=[], fns=[])
        st = self.strict
        self.toks, self.i, self.blks, self.strict, self.noin = saved
        return self.node("deval", vars=sorted(set(f.vars)), fns=f.fns, lex=b.lex, body=body, e=last["e"], st=st)

    def tagged(self, f):
        raise ParseError("tagged template")

    def member_only(self, e):
        while True:
            if self.eat("."):
                e = self.dot(e, False)
            elif self.eat("["):
                e = self.node("idx", o=e, e=self.expr_in(), opt=False, st=self.strict)
                self.need("]")
            else:
                return e

    def anyname(self):
        k, v = self.peek()
        if k != "id":
            raise ParseError("name expected after .")
        self.i += 1
        return v

    def dot(self, e, opt):
        k, v = self.peek()
        if k == "priv":
            self.i += 1
            return self.node("pmem", o=e, n=v, opt=opt)
        return self.node("mem", o=e, key=self.anyname(), opt=opt, st=self.strict)

    def primary(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return self.node("lit", v=["n", int(v)])
        if k == "str":
            self.i += 1
            return self.node("lit", v=["s", v])
        if k == "tmpl":
            self.i += 1
            return self.template(v)
        if k == "p":
            if v == "(":
                self.i += 1
                e = self.expr_in()
                self.need(")")
                return e
            if v == "[":
                return self.array()
            if v == "{":
                return self.object()
        if k == "id":
            if v in ("true", "false"):
                self.i += 1
                return self.node("lit", v=["b", v == "true"])
            if v == "null":
                self.i += 1
                return self.node("lit", v=["l"])
            if v == "this":
                self.i += 1
                return self.node("this")
            if v == "function":
                self.i += 1
                gen = self.eat("*")
                nm = "" if self.isp("(") else self.name()
                return self.node("fn", f=self.function(nm=nm, gen=gen), anon=nm == "", plain=False)
            if v == "async" and self.isid("function", 1):
                self.i += 2
                gen = self.eat("*")
                nm = "" if self.isp("(") else self.name()
                return self.node("fn", f=self.function(nm=nm, gen=gen, is_async=True), anon=nm == "", plain=False)
            if v == "class":
                self.i += 1
                nm = "" if self.isp("{") or self.isid("extends") else self.name()
                return self.klass(nm)
            return self.ident(self.name())
        raise ParseError("expression expected, got %s near %s" % (v, self.toks[max(0, self.i - 8):self.i + 3]))

    def template(self, v):
        quasis, exprs = v
        es = []
        for s in exprs:
            saved = self.toks, self.i
            self.toks, self.i = tokenize(s), 0
            es.append(self.expr_in())
            if self.peek()[0] != "eof":
                raise ParseError("template")
            self.toks, self.i = saved
        return self.node("tmpl", q=quasis, e=es)

    def array(self):
        self.need("[")
        els = []
        while not self.isp("]"):
            if self.isp(","):
                self.i += 1
                els.append(0)
                continue
            if self.eat("..."):
                els.append(self.node("spr", e=self.assign_in()))
            else:
                els.append(self.assign_in())
            if not self.eat(","):
                break
        self.need("]")
        return self.node("arr", els=els)

    def modifiers(self):
        """(kind, async, gen) of the method that follows: kind '' when it may be no method"""
        def ends(d):    # is the token at offset d the end of a property name (so the word is the name itself)
            k, v = self.peek(d)
            return k == "p" and v in ("(", ":", ",", "}", "=", ";")
        if (self.isid("get") or self.isid("set")) and not ends(1):
            kind = self.peek()[1]
            self.i += 1
            return kind, False, False
        if self.isid("async") and not ends(1):
            self.i += 1
            return "meth", True, self.eat("*")
        if self.eat("*"):
            return "meth", False, True
        return "", False, False

    def object(self):
        self.need("{")
        props = []
        while not self.isp("}"):
            if self.eat("..."):
                props.append({"t": "spread", "key": "", "ck": 0, "v": self.assign_in()})
            else:
                kind, a, g = self.modifiers()
                key, ck, isname = self.propname()
                if kind or self.isp("("):
                    f = self.function(nm="", meth=True, is_async=a, gen=g)
                    props.append({"t": kind or "meth", "key": key, "ck": ck, "v": f})
                elif self.eat(":"):
                    props.append({"t": "proto" if key == "__proto__" and not ck else "init", "key": key, "ck": ck, "v": self.assign_in()})
                else:
                    v = self.ident(key)
                    if self.eat("="):       # only as a pattern
                        v = self.node("asg", op="=", t=v, e=self.assign_in())
                    props.append({"t": "init", "key": key, "ck": ck, "v": v})
            if not self.eat(","):
                break
        self.need("}")
        return self.node("obj", props=props)

    def klass(self, nm):
        old, self.strict = self.strict, True
        h = 0
        if self.eatid("extends"):
            h = self.lhs()
        self.need("{")
        els, ctor, priv = [], 0, []
        while not self.isp("}"):
            if self.eat(";"):
                continue
            static = False
            if self.isid("static") and not (self.isp("(", 1) or self.isp("=", 1) or self.isp(";", 1)):
                self.i += 1
                static = True
                if self.isp("{"):
                    els.append({"t": "sblock", "static": True, "priv": False, "key": "", "ck": 0, "fn": self.block_fn()})
                    continue
            kind, a, g = self.modifiers()
            isp = self.peek()[0] == "priv"
            if isp:
                key, ck = self.peek()[1], 0
                self.i += 1
                if key not in priv:
                    priv.append(key)
            else:
                key, ck, _ = self.propname()
            if kind or self.isp("("):
                isctor = key == "constructor" and not static and not ck and not isp and not kind
                f = self.function(nm=nm if isctor else "", meth=True, is_async=a, gen=g)
                if isctor:
                    ctor = f
                else:
                    els.append({"t": kind or "meth", "static": static, "priv": isp, "key": key, "ck": ck, "fn": f})
            else:
                f = self.field_fn(key if not ck else "") if self.eat("=") else 0
                self.need(";")
                els.append({"t": "field", "static": static, "priv": isp, "key": key, "ck": ck, "fn": f})
        self.need("}")
        self.strict = old
        if not ctor:
            empty = self.node("blk", b=[], lex=[], fns=[])
            if h:
                a = self.node("id", n="args", st=True)
                sc = self.node("scall", args=[self.node("spr", e=a)])
                empty = self.node("blk", b=[self.node("expr", e=sc)], lex=[], fns=[])
                par = [{"t": self.node("id", n="args", st=True), "d": 0, "rest": True}]
            ctor = self.node("fdef", nm=nm, len=0, params=par if h else [], simple=not h, pexp=False, pn=["args"] if h else [],
                             args=False, vars=[], fns=[], lex=[], body=empty, arrow=False, meth=True, gen=False, st=True,
                             **{"async": False})
        return self.node("class", nm=nm, anon=nm == "", h=h, ctor=ctor, priv=priv, els=els)

    def field_fn(self, key):
        return self.synth(lambda: self.node("ret", e=self.assign_in(), agen=False))

    def block_fn(self):
        def body():
            self.need("{")
            lst = []
            while not self.isp("}"):
                lst.append(self.statement())
            self.need("}")
            return self.node("blk", b=lst, lex=[], fns=[])
        return self.synth(body)

    def synth(self, mk):
        f = Fn(False, True, False, False)
        oldin, oldblks = self.noin, self.blks
        self.noin = False
        self.fnstack.append(f)
        b = Blk(f)
        self.blks = [b]
        body = mk()
        self.fnstack.pop()
        self.noin, self.blks = oldin, oldblks
        return self.node("fdef", nm="", len=0, params=[], simple=True, pexp=False, pn=[], args=False, vars=sorted(set(f.vars)),
                         fns=f.fns, lex=b.lex, body=body, arrow=False, meth=True, gen=False, st=True, **{"async": False})

    # ------------------------------------------------------------ statements
    def semi(self):
        if self.peek()[1] == "}" and self.peek()[0] == "p":
            return
        self.need(";")

    def block(self):
        self.need("{")
        b = Blk()
        self.blks.append(b)
        lst = []
        while not self.isp("}"):
            lst.append(self.statement())
        self.need("}")
        self.blks.pop()
        return self.node("blk", b=lst, lex=b.lex, fns=b.fns)

    def declare(self, kind, names):
        if kind == "var":
            self.fn.vars += names
        else:
            self.blks[-1].lex += [[x, "const" if kind == "const" else "let"] for x in names]

    def var_decls(self, kind):
        decls = []
        while True:
            t = self.target()
            e = self.assign() if self.eat("=") else 0
            self.declare(kind, self.bound(t))
            decls.append({"t": t, "e": e})
            if not self.eat(","):
                return self.node("var", kind=kind, decls=decls)

    def statement(self, labels=()):
        k, v = self.peek()
        if k == "p" and v == "{":
            return self.block()
        if k == "p" and v == ";":
            self.i += 1
            return self.node("empty")
        if k == "id":
            if v in ("var", "const") or (v == "let" and (self.peek(1)[0] == "id" or self.isp("[", 1) or self.isp("{", 1))):
                self.i += 1
                s = self.var_decls(v)
                self.semi()
                return s
            if v == "function" or (v == "async" and self.isid("function", 1)):
                a = v == "async"
                self.i += 2 if a else 1
                gen = self.eat("*")
                nm = self.name()
                f = self.function(nm=nm, is_async=a, gen=gen)
                b = self.blks[-1]
                if b.top is not None:
                    b.top.fns.append([nm, f])
                else:
                    b.lex.append([nm, "let"])
                    b.fns.append([nm, f])
                return self.node("fdecl")
            if v == "class":
                self.i += 1
                nm = self.name()
                c = self.klass(nm)
                self.blks[-1].lex.append([nm, "let"])
                return self.node("cdecl", n=nm, c=c)
            if v == "if":
                self.i += 1
                self.need("(")
                c = self.expr_in()
                self.need(")")
                a = self.statement()
                b = self.statement() if self.eatid("else") else 0
                return self.node("if", c=c, a=a, b=b)
            if v == "while":
                self.i += 1
                self.need("(")
                c = self.expr_in()
                self.need(")")
                return self.node("while", c=c, b=self.statement(), ls=list(labels))
            if v == "do":
                self.i += 1
                b = self.statement()
                self.need("while")
                self.need("(")
                c = self.expr_in()
                self.need(")")
                self.eat(";")
                return self.node("dowhile", c=c, b=b, ls=list(labels))
            if v == "for":
                return self.for_(labels)
            if v == "switch":
                return self.switch()
            if v in ("break", "continue"):
                self.i += 1
                l = "" if self.isp(";") else self.name()
                self.semi()
                return self.node("brk" if v == "break" else "cnt", l=l)
            if v == "return":
                self.i += 1
                e = 0 if self.isp(";") else self.expr_in()
                self.semi()
                return self.node("ret", e=e, agen=self.fn.gen and self.fn.is_async)
            if v == "throw":
                self.i += 1
                e = self.expr_in()
                self.semi()
                return self.node("thr", e=e)
            if v == "try":
                return self.try_()
            if v == "with":
                self.i += 1
                self.need("(")
                o = self.expr_in()
                self.need(")")
                return self.node("with", o=o, b=self.statement())
            if self.isp(":", 1) and v not in RESERVED:
                self.i += 2
                s = self.statement(tuple(labels) + (v,))
                return self.node("lab", l=v, s=s)
        e = self.expr_in()
        self.semi()
        return self.node("expr", e=e)

    def for_(self, labels):
        self.i += 1
        aw = self.eatid("await")
        self.need("(")
        b = Blk()
        self.blks.append(b)
        kind, init, init_s = "", 0, False
        if self.isp(";"):
            pass
        else:
            old, self.noin = self.noin, True
            k, v = self.peek()
            if k == "id" and (v in ("var", "const") or (v == "let" and (self.peek(1)[0] == "id" or self.isp("[", 1) or self.isp("{", 1))
                                                        and not self.isid("in", 1))):
                self.i += 1
                t = self.target()
                if self.isid("in") or self.isid("of"):
                    self.noin = old
                    if v == "var":
                        self.fn.vars += self.bound(t)
                    else:
                        b.lex += [[x, "const" if v == "const" else "let"] for x in self.bound(t)]
                    return self.for_each(labels, v, t, b, aw)
                e = self.assign() if self.eat("=") else 0
                self.declare(v, self.bound(t))
                decls = [{"t": t, "e": e}]
                if self.eat(","):
                    rest = self.n(self.var_decls(v))
                    decls += rest["decls"]
                init, init_s, kind = self.node("var", kind=v, decls=decls), True, v
            else:
                e = self.expr()
                if self.isid("in") or self.isid("of"):
                    self.noin = old
                    return self.for_each(labels, "asg", self.to_pattern(e), b, aw)
                init = e
            self.noin = old
        self.need(";")
        test = 0 if self.isp(";") else self.expr_in()
        self.need(";")
        upd = 0 if self.isp(")") else self.expr_in()
        self.need(")")
        body = self.statement()
        self.blks.pop()
        return self.node("for", init=init, initS=init_s, test=test, upd=upd, b=body, lex=b.lex,
                         per=[x[0] for x in b.lex if x[1] == "let"], ls=list(labels))

    def for_each(self, labels, kind, t, b, aw):
        what = self.peek()[1]
        self.i += 1
        e = self.expr_in() if what == "in" else self.assign_in()
        self.need(")")
        body = self.statement()
        self.blks.pop()
        d = {"kind": kind, "t": t, "lex": b.lex, "e": e, "body": body, "ls": list(labels), "await": aw}
        return self.node("forin" if what == "in" else "forof", **d)

    def switch(self):
        self.i += 1
        self.need("(")
        d = self.expr_in()
        self.need(")")
        self.need("{")
        b = Blk()
        self.blks.append(b)
        cases = []
        while not self.isp("}"):
            if self.eatid("default"):
                t = 0
            else:
                self.need("case")
                t = self.expr_in()
            self.need(":")
            lst = []
            while not (self.isp("}") or self.isid("case") or self.isid("default")):
                lst.append(self.statement())
            cases.append({"t": t, "b": lst})
        self.need("}")
        self.blks.pop()
        return self.node("switch", d=d, cases=cases, lex=b.lex, fns=b.fns)

    def try_(self):
        self.i += 1
        b = self.block()
        h = p = f = 0
        lex = []
        if self.eatid("catch"):
            if self.eat("("):
                p = self.target()
                lex = [[x, "let"] for x in self.bound(p)]
                self.need(")")
            h = self.block()
        if self.eatid("finally"):
            f = self.block()
        return self.node("try", b=b, h=h, p=p, lex=lex, f=f)


def parse_program(src, strict=False, is_async=False):
    """src: body of a function; returns the program {t, main} for the specification"""
    p = Parser(src, strict)
    p.toks = [("p", "("), ("p", ")"), ("p", "{")] + p.toks[:-1] + [("p", "}"), ("eof", "")]
    main = p.function(nm="main", is_async=is_async)
    if p.peek()[0] != "eof":
        raise ParseError("trailing tokens")
    return {"t": p.t, "main": main}


def wrap(src, strict=False):
    """the same program as a script for the engine"""
    return "(function main() {%s%s\n})();" % ('"use strict";' if strict else "", src)


def inp(src, strict):
    """the input of drivers/jscore.js for a program"""
    d = {"s": wrap(src, strict)}
    if "/*M*/" in src:
        d["m"] = 1
    return d
