"""development aid: reduce a program on which node and the engine differ.
usage: jsreduce.py GEN N SEED INDEX | jsreduce.py FILE"""
import sys, os, random, tempfile, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib")); sys.path.insert(0, os.path.join(ROOT, "tools"))
import vlib, jsast, jsgen, jsdev
if len(sys.argv) > 3:
    gen, n, seed, i = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
    rng = random.Random(gen + seed)
    s, st = [getattr(jsgen, gen)(rng) for _ in range(n)][i]
else:
    s, st = open(sys.argv[1]).read(), False
    if s.startswith("strict\n"):
        s, st = s[7:], True
work = tempfile.mkdtemp()
os.environ["TMO"] = "1"


def toks(src):
    return re.findall(r"`[^`]*`|'[^']*'|\"[^\"]*\"|[A-Za-z_$#][\w$]*|\d+|=>|\.\.\.|\?\.|&&=|\|\|=|\?\?=|===|!==|[-+*%=!<>]=|&&|\|\||\?\?|\+\+|--|\S", src)


def join(ts):
    return " ".join(ts)


def bad(src):
    c = [{"s": jsast.wrap(src, st)}]
    try:
        jsast.parse_program(src, st)
    except Exception:
        return False
    if CRASH:
        rt, status, err = jsdev.rat_run(c, work)
        return status not in ("ok", "timeout")
    nd = jsdev.node_run(c, work)
    if not nd or any("SyntaxError" in x for x in nd[0]) or len(nd[0]) > 500:
        return False
    rt, status, err = jsdev.rat_run(c, work)
    return rt[0] != nd[0] or status != "ok"


ts = toks(s)
CRASH = jsdev.rat_run([{"s": jsast.wrap(s, st)}], work)[1] not in ("ok", "timeout")
assert bad(join(ts)), "not failing"
size = len(ts) // 2
OPEN, CLOSE = "([{", ")]}"


def balanced(x):
    d = 0
    for t in x:
        if t in OPEN:
            d += 1
        elif t in CLOSE:
            d -= 1
            if d < 0:
                return False
    return d == 0


while size >= 1:
    i, changed = 0, False
    while i + size <= len(ts):
        if balanced(ts[i:i + size]):
            c = ts[:i] + ts[i + size:]
            if bad(join(c)):
                ts, changed = c, True
                continue
        i += 1
    # unwrap a bracket pair
    if size == 1:
        i = 0
        while i < len(ts):
            if ts[i] in OPEN:
                d, j = 0, i
                while True:
                    if ts[j] in OPEN: d += 1
                    elif ts[j] in CLOSE:
                        d -= 1
                        if d == 0: break
                    j += 1
                c = ts[:i] + ts[i + 1:j] + ts[j + 1:]
                if bad(join(c)):
                    ts, changed = c, True
                    continue
            i += 1
    if not changed or size > 1:
        size = size - 1 if size <= 6 else size * 2 // 3
src = join(ts)
print(src)
c = [{"s": jsast.wrap(src, st)}]
print(" node", jsdev.node_run(c, work)[0])
print(" rat ", jsdev.rat_run(c, work))
