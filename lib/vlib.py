"""Shared machinery: build the engine from /repo's working tree, run TLC on the
specifications, turn TLC's output into tests, run them on the real engine,
report.  Everything a check decides is decided by comparing the engine with
what TLC computed from a TLA+ specification in /verif/spec."""
import fcntl, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, time
from collections import deque
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
DRIVERS = os.path.join(ROOT, "drivers")
BUILD = os.path.join(ROOT, "build")
NCPU = os.cpu_count() or 4
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not do its work (never reported as a violation)."""


class Stop(Exception):
    """A violation is confirmed: no need to explore further."""


def sh(cmd, timeout=900, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd,
                       env=env, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")


# ---------------------------------------------------------------- building
FLAVORS = {
    # hooks on; the assertions of the engine stay on (default configuration)
    "plain": dict(cflags="-DRJS_VERIF", ld="", hc="-O1 -DRJS_VERIF"),
    "asan": dict(cflags="-DRJS_VERIF -g -fsanitize=address -fno-omit-frame-pointer", ld="-fsanitize=address",
                 hc="-O1 -g -DRJS_VERIF -fsanitize=address"),
    "tsan": dict(cflags="-DRJS_VERIF -g -fsanitize=thread", ld="-fsanitize=thread",
                 hc="-O1 -g -DRJS_VERIF -fsanitize=thread"),
}


def build(flavor="plain", exe=False, njs=False):
    """Returns the build directory, with rjsh (and ratjs when exe) in it."""
    os.makedirs(BUILD, exist_ok=True)
    f = FLAVORS[flavor]
    src, out = os.path.join(BUILD, "src"), os.path.join(BUILD, flavor)
    env = {k: v for k, v in os.environ.items()
           if k not in ("O", "ARCH", "DEBUG", "CROSS_COMPILE", "CLANG", "M", "CFLAGS", "LIBS", "HOST_CFLAGS",
                        "HOST_LIBS", "MAKEFLAGS")}
    env["CFLAGS"] = f["cflags"]
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(src, exist_ok=True)
        # copy by content, so that mtimes in the copy change exactly when the content does
        rc, log = sh(["rsync", "-rlc", "--delete", "--exclude=/_build", "--exclude=/.git", "--exclude=/demo",
                      REPO + "/", src + "/"])
        if rc:
            raise CheckError("rsync failed: " + log[-2000:])
        listing = "\n".join(sorted(os.path.join(d, n) for d, _, ns in os.walk(src) for n in ns))
        mk = open(os.path.join(src, "Makefile"), "rb").read()
        key = hashlib.sha256(listing.encode() + mk + repr(f).encode()).hexdigest()
        kf = os.path.join(out, ".key")
        if not os.path.exists(kf) or open(kf).read() != key:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            rc, log = sh(["make", "O=" + out, "config"], cwd=src, env=env)
            if rc:
                raise CheckError("config failed: " + log[-2000:])
            open(kf, "w").write(key)
        rc, log = sh(["make", "--eval=.DELETE_ON_ERROR:", "O=" + out, "-j%d" % NCPU, out + "/libratjs.a"],
                     cwd=src, env=env)
        if rc:
            raise CheckError("build failed: " + log[-4000:])
        inc = ["-I" + src + "/include", "-I" + out + "/include"]
        libs = ["-licuuc", "-lffi", "-lm", "-lpthread", "-ldl"]
        # -rdynamic and whole-archive: native modules resolve the API from the executable
        link = ["-rdynamic", "-Wl,--whole-archive", out + "/libratjs.a", "-Wl,--no-whole-archive"] + libs
        targets = [("rjsh", os.path.join(ROOT, "harness", "rjsh.c"))]
        if exe:
            targets.append(("ratjs", os.path.join(src, "src/exe/rjs_main.c")))
        for name, c in targets:
            o = os.path.join(out, name)
            if not os.path.exists(o) or os.path.getmtime(o) < max(
                    os.path.getmtime(out + "/libratjs.a"), os.path.getmtime(c)):
                rc, log = sh(["gcc"] + f["hc"].split() + inc + ["-o", o + ".tmp", c] + f["ld"].split() + link)
                if rc:
                    raise CheckError("link failed: " + log[-3000:])
                os.rename(o + ".tmp", o)
    return out


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.rc = 0
        self.log = ""
        self.lines = []


def tlc(spec, cfg, workdir, mode=None, env=None, workers=None, timeout=800, heap="6g", extra=(), dfs=False):
    """Run TLC. The specification prints test material with CSVWrite to IOEnv.OUT."""
    os.makedirs(workdir, exist_ok=True)
    outf = os.path.join(workdir, "emit.txt")
    if os.path.exists(outf):
        os.unlink(outf)
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    if not cfg.endswith(".cfg"):
        cfg += ".cfg"
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e["OUT"] = outf
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", meta, "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, cfg)]
    cmd += list(mode or []) + list(extra) + [os.path.join(SPEC, spec + ".tla")]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC, env=e)
    r = TLCResult()
    r.rc, r.log = p.returncode, p.stdout.decode("utf-8", "replace")
    r.wall = time.time() - t0
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.log)
    if m:
        r.generated, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", r.log)
    if m:
        r.depth = int(m.group(1))
    if os.path.exists(outf):
        r.lines = outf
    shutil.rmtree(meta, ignore_errors=True)
    return r


def tlc_ok(*a, **k):
    """Run TLC on a specification that must be right: anything else is an error of the check."""
    r = tlc(*a, **k)
    if r.rc != 0:
        raise CheckError("TLC rejected the specification itself (%s %s), rc=%d:\n%s" % (a[0], a[1], r.rc, r.log[-3000:]))
    return r


def emitted(r, lenient=False):
    if not r.lines:
        return
    with open(r.lines, encoding="utf-8", errors="replace" if lenient else "strict") as f:
        for line in f:
            line = line.strip()
            if line:
                try:
                    x = json.loads(json.loads(line))
                except ValueError:
                    if lenient:
                        continue
                    raise
                yield x


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


# ---------------------------------------------------------------- graph -> walks
class Graph:
    """State graph of a specification, with an operation and its outcome on every edge."""

    def __init__(self):
        self.ids, self.edges, self.init, self.nedges = {}, [], [], 0

    def node(self, key):
        k = canon(key)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
            self.edges.append([])
        return self.ids[k]

    def add(self, f, op, res, t):
        a, b = self.node(f), self.node(t)
        self.edges[a].append((op, res, b))
        self.nedges += 1


def load_graph(r):
    g = Graph()
    for e in emitted(r):
        if "i" in e:
            g.init.append(g.node(e["i"]))
        else:
            g.add(e["f"], e["o"], e["r"], e["t"])
    return g


def cover_walks(g, maxlen, rng, start=None, limit=None):
    """Walks from the initial state that together take every edge. Returns lists of (op, res)."""
    starts = [start] if start is not None else (g.init or [0])
    left = [list(range(len(es))) for es in g.edges]
    for l in left:
        rng.shuffle(l)
    remaining = sum(len(l) for l in left)
    # shortest paths from the initial states
    tree, order = {x: None for x in starts}, list(starts)
    for n in order:
        for j, (_, _, m) in enumerate(g.edges[n]):
            if m not in tree:
                tree[m] = (n, j)
                order.append(m)
    dead = set()
    walks = []
    pos = 0
    while remaining and (limit is None or len(walks) < limit):
        while pos < len(order) and not left[order[pos]]:
            pos += 1
        if pos == len(order):
            break
        path, n = [], order[pos]
        while tree[n] is not None:
            path.append(tree[n])
            n = tree[n][0]
        walk = [g.edges[n][j][:2] for n, j in reversed(path)]
        walk = [tuple(x) for x in walk]
        cur = order[pos]
        first = True
        while first or len(walk) < maxlen:
            if left[cur]:
                i = left[cur].pop()
                remaining -= 1
                op, res, nxt = g.edges[cur][i]
                walk.append((op, res))
                cur = nxt
                first = False
                continue
            # a near node with an edge not yet taken
            prev, q, goal = {cur: None}, deque([cur]), None
            while q and len(prev) < 300:
                n = q.popleft()
                if left[n]:
                    goal = n
                    break
                for j, (_, _, m) in enumerate(g.edges[n]):
                    if m not in prev and m not in dead:
                        prev[m] = (n, j)
                        q.append(m)
            if goal is None:
                if not q:
                    dead.update(prev)   # nothing left to take from any of these
                break
            path = []
            n = goal
            while prev[n] is not None:
                path.append(prev[n])
                n = prev[n][0]
            if len(walk) + len(path) >= maxlen:
                break
            for (n, j) in reversed(path):
                op, res, m = g.edges[n][j]
                walk.append((op, res))
                cur = m
        walks.append(walk)
    return walks, remaining


def random_walks(g, n, length, rng):
    starts = g.init or [0]
    out = []
    for _ in range(n):
        cur, walk = rng.choice(starts), []
        while len(walk) < length and g.edges[cur]:
            op, res, cur = rng.choice(g.edges[cur])
            walk.append((op, res))
        out.append(walk)
    return out


# ---------------------------------------------------------------- running the engine
def run_engine(build_dir, script, args=(), timeout=120, opts=(), cwd=None, env=None, exe="rjsh", mem=None):
    """Returns (status, stdout, stderr); status 'ok' | 'timeout' | 'signal N' | 'exit N'."""
    e = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": "/tmp",
         "RJS_LOG_LEVEL": "error", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=1"}
    e.update(env or {})

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run([os.path.join(build_dir, exe)] + list(opts) + [script] + list(args),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                           timeout=timeout, cwd=cwd, env=e, preexec_fn=pre)
    except subprocess.TimeoutExpired as x:
        return "timeout", (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")
    out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    if p.returncode < 0:
        return "signal %d" % -p.returncode, out, err
    if p.returncode:
        return "exit %d" % p.returncode, out, err
    return "ok", out, err


class Case:
    """One test: what the engine is asked to do, and what the specification says happens."""
    __slots__ = ("input", "expect", "meta")

    def __init__(self, inp, expect, meta=None):
        self.input, self.expect, self.meta = inp, expect, meta


class Outcome:
    def __init__(self, idx, case, actual, status, err=""):
        self.idx, self.case, self.actual, self.status, self.err = idx, case, actual, status, err


def _run_batch(build_dir, driver, inputs, workdir, tag, timeout, opts, env, exe):
    """Feed inputs (JSON lines) to a driver; returns list of (actual or None, status) as far as it got."""
    dataf = os.path.join(workdir, "in-%s.ndjson" % tag)
    with open(dataf, "w", encoding="utf-8") as f:
        for x in inputs:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    st, out, err = run_engine(build_dir, driver, [dataf], timeout=timeout, opts=opts, env=env, exe=exe, cwd=workdir)
    res, ended = {}, False
    for line in out.split("\n"):
        if line.startswith("@@R "):
            _, n, body = line.split(" ", 2)
            try:
                res[int(n)] = json.loads(body)
            except ValueError:
                res[int(n)] = "unparsable: " + body[:300]
        elif line == "@@END":
            ended = True
    if st == "ok" and not ended:
        st = "no end"
    extra = [l for l in out.split("\n") if l.startswith("@@THROW") or l.startswith("@@SYNTAX")]
    if "unfreed memory" in err and st == "ok":
        st = "leak"
    try:
        os.unlink(dataf)
    except OSError:
        pass
    return res, st, (" ".join(extra) + " " + err[-1500:]).strip()


def run_cases(build_dir, driver, cases, workdir, timeout=100, chunk=None, opts=(), env=None, exe="rjsh",
              compare=None, max_bad=4, jobs=None, alone=30):
    """Runs the cases on the engine in parallel batches; returns the confirmed failing Outcomes.
    A case whose batch died is re-run alone; a disagreement counts only if a re-run repeats it.
    Stops early once max_bad failures are confirmed."""
    os.makedirs(workdir, exist_ok=True)
    driver = os.path.join(DRIVERS, driver) if not os.path.isabs(driver) else driver
    # the driver is prepended with the shared driver library
    full = os.path.join(workdir, "driver-" + os.path.basename(driver))
    with open(full, "w") as f:
        text = re.sub(r"^/\*@include (\S+)\*/$", lambda m: open(os.path.join(DRIVERS, m.group(1))).read(), open(driver).read(), flags=re.M)
        f.write(open(os.path.join(DRIVERS, "lib.js")).read() + "\n" + text + "\nL_main();\n")
    cmp_ = compare or (lambda exp, act, case: canon(exp) == canon(act))
    jobs = jobs or NCPU
    chunk = chunk or max(1, min(400, (len(cases) + jobs - 1) // jobs))
    batches = [list(range(i, min(i + chunk, len(cases)))) for i in range(0, len(cases), chunk)]
    bad = []
    found = []      # confirmed so far, over all threads

    def go(tag, idxs, tmo):
        return _run_batch(build_dir, full, [cases[i].input for i in idxs], workdir, tag, tmo, opts, env, exe)

    def one(bn):
        todo = list(batches[bn])
        fails = []
        rounds = 0
        while todo and rounds < 4 and len(fails) < max_bad and len(found) < max_bad:
            rounds += 1
            res, st, err = go("b%d" % bn, todo, timeout)
            for k, i in enumerate(todo):
                if k in res and not cmp_(cases[i].expect, res[k], cases[i]):
                    fails.append((i, res[k], "differs", err))
            if st != "ok":
                done = max(res) + 1 if res else 0
                if done < len(todo):
                    fails.append((todo[done], None, st, err))
                    if st == "timeout":
                        break
                    todo = todo[done + 1:]
                    continue
                fails.append((todo[-1], None, st + " at the end of the batch", err))
            break
        conf = []
        for (i, act, st, err) in fails[:max_bad]:
            if len(found) >= max_bad:
                break
            # re-run alone, then in the batch it came from
            res, st2, err2 = go("c%d" % bn, [i], alone)
            o = None
            if 0 in res and not cmp_(cases[i].expect, res[0], cases[i]):
                o = Outcome(i, cases[i], res[0], "differs", err2)
            elif st2 != "ok":
                o = Outcome(i, cases[i], res.get(0), st2, err2)
            else:
                b = batches[bn]
                res, st3, err3 = go("d%d" % bn, b, timeout)
                k = b.index(i)
                if st == "differs":
                    if k in res and not cmp_(cases[i].expect, res[k], cases[i]):
                        o = Outcome(i, cases[i], res[k], "differs (in batch)", err3)
                elif st3 != "ok":
                    o = Outcome(i, cases[i], None, st3 + " (in batch)", err3)
                if o:
                    o.batch = [cases[j].input for j in b]
            if o:
                conf.append(o)
                found.append(o)
        return conf

    with ThreadPoolExecutor(jobs) as ex:
        for c in ex.map(one, range(len(batches))):
            bad.extend(c)
    return bad


# ---------------------------------------------------------------- reporting
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%s" % (prop, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "steps_replayed": 0, "parts": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        kf = os.path.join(ROOT, "known_findings.jsonl")
        self.known_list = []
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    k = json.loads(line)
                    if k["property"] == prop:
                        self.known_list.append(k)

    def sub(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add_tlc(self, name, r, **kw):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        d = {"part": name, "distinct_states": r.distinct, "states_generated": r.generated, "tlc_s": round(r.wall, 1)}
        if r.depth:
            d["depth"] = r.depth
        d.update(kw)
        self.cov["parts"].append(d)

    def note(self, **kw):
        self.cov["parts"].append(kw)

    def ran(self, cases, steps=None):
        self.cov["traces_validated_against_impl"] += len(cases)
        self.cov["steps_replayed"] += steps if steps is not None else sum(
            len(c.expect) if isinstance(c.expect, list) else 1 for c in cases)
        if cases and len(self.cov["samples"]) < 6:
            c = cases[self.rng.randrange(len(cases))]
            s = canon({"input": c.input, "expected": c.expect})
            self.cov["samples"].append(s[:1500])

    def fail(self, outcome, what=""):
        """A confirmed disagreement between the engine and the specification."""
        key = canon({"input": outcome.case.input, "expect": outcome.case.expect})
        for k in self.known_list:
            if k.get("match") and k["match"] in key:
                msg = "KNOWN-FINDING: property=%s %s" % (self.prop, k["what"])
                if msg not in self.known:
                    self.known.append(msg)
                return
        n = len(self.violations)
        d = os.path.join(ROOT, "work", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, n))
        rec = {"property": self.prop, "what": what, "status": outcome.status, "input": outcome.case.input,
               "expected": outcome.case.expect, "actual": outcome.actual, "stderr": outcome.err[-2000:]}
        e, a = outcome.case.expect, outcome.actual
        if isinstance(e, list) and isinstance(a, list):
            for i in range(max(len(e), len(a))):
                if i >= len(e) or i >= len(a) or canon(e[i]) != canon(a[i]):
                    rec["first_difference"] = {"index": i, "expected": e[i] if i < len(e) else None,
                                               "actual": a[i] if i < len(a) else None}
                    break
        if hasattr(outcome, "batch"):
            rec["batch"] = outcome.batch
        if outcome.case.meta:
            rec["meta"] = outcome.case.meta
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append(path)

    def fails(self, outcomes, what=""):
        for o in outcomes:
            self.fail(o, what)
        if self.violations and not os.environ.get("VERIF_ALL"):
            raise Stop()

    def finish(self, level="model_checking"):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(k)
        for p in self.violations[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d states, %d transitions, %d traces on the engine, %d steps, %.1fs, %d violation(s)" % (
            self.prop, self.tier, self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], self.cov["steps_replayed"], time.time() - self.t0,
            len(self.violations)))
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def walk_case(walk, cfg=None):
    """A walk as a Case: the driver gets the operations, the outcomes are expected."""
    return Case({"c": cfg, "ops": [w[0] for w in walk]}, [w[1] for w in walk])


def graph_check(ctx, build_dir, name, spec, cfg, driver, maxlen=40, nrandom=0, randlen=100, case_cfg=None, env=None,
                what="", extra_env=None, limit=None, invert=None, timeout=120, tlc_kw=None, make_case=None, opts=()):
    """Exhaust the specification's bounded state graph with TLC (invariants on), then replay
    every transition, and random walks, on the engine."""
    r = tlc_ok(spec, cfg, ctx.sub(name), env=extra_env, **(tlc_kw or {}))
    g = load_graph(r)
    walks, rem = cover_walks(g, maxlen, ctx.rng, limit=limit)
    cov = len(walks)
    if nrandom:
        walks += random_walks(g, nrandom, randlen, ctx.rng)
    mk = make_case or walk_case
    cases = [mk(w, case_cfg) for w in walks if w]
    bad = run_cases(build_dir, driver, cases, ctx.sub(name + "-run"), timeout=timeout, env=env, opts=opts)
    ctx.add_tlc(name, r, graph_nodes=len(g.ids), graph_edges=g.nedges, edges_not_replayed=rem, cover_walks=cov,
                random_walks=len(walks) - cov)
    ctx.ran(cases)
    ctx.fails(bad, what or name)
    return g, cases


def eval_programs(ctx, name, spec, cfg, progs, env=None, tlc_kw=None, key="k"):
    """Let TLC execute the specification on each of the given inputs (one behaviour per input,
    invariants on at every step); returns the expected outcome of each."""
    d = ctx.sub(name)
    inf = os.path.join(d, "progs.ndjson")
    e = {"IN": inf}
    e.update(env or {})
    exp, first = {}, None
    todo = list(range(len(progs)))
    for attempt in range(3):
        # TLC's workers can interleave very long output lines: what is missing is evaluated again by one worker
        with open(inf, "w") as f:
            for i in todo:
                f.write(json.dumps(progs[i], separators=(",", ":")) + "\n")
        kw = dict(tlc_kw or {})
        if attempt:
            kw["workers"] = 1
        r = tlc_ok(spec, cfg, d, env=e, **kw)
        first = first or r
        steps = {}
        for x in emitted(r, lenient=True):
            if "i" in x:
                steps.setdefault(x["k"], {})[x["i"]] = x["r"]
            else:
                exp[todo[x["k"] - 1]] = x["r"]
        for k, st in steps.items():
            n = len(progs[todo[k - 1]]["ops"])
            if len(st) == n:
                exp[todo[k - 1]] = [st[i + 1] for i in range(n)]
        todo = [i for i in range(len(progs)) if i not in exp]
        if not todo:
            break
    if todo:
        raise CheckError("%s: TLC produced %d outcomes for %d inputs\n%s" % (name, len(exp), len(progs), r.log[-1500:]))
    r = first
    ctx.add_tlc(name, r, programs=len(progs))
    return [exp[i] for i in range(len(progs))]
