/* Weak.tla: objects whose references are kept in many ways; every operation runs as a job of its own and is
   followed by collections and jobs until no more finalization callback is called */
function ident(x) { return x === undefined ? 0 : typeof x === "symbol" ? +x.description : x.id; }
function named(o, id) { Object.defineProperty(o, "id", {value: id}); return o; }
class Priv { #a; #b; get(p) { return p == 1 ? this.#a : this.#b; } put(p, v) { if (p == 1) this.#a = v; else this.#b = v; } }
/* each style: make(), get(o, p), put(o, p, v) */
const S1 = Symbol("a"), S2 = Symbol("b");
const styles = [
    {make: () => ({}), get: (o, p) => o["p" + p], put: (o, p, v) => { o["p" + p] = v; }},
    {make: () => [undefined, undefined], get: (o, p) => o[p], put: (o, p, v) => { o[p] = v; }},
    {make: () => { let a, b; function f(p, v, set) { if (set) { if (p == 1) a = v; else b = v; } return p == 1 ? a : b; } return f; },
     get: (o, p) => o(p), put: (o, p, v) => { o(p, v, true); }},
    {make: () => new Map(), get: (o, p) => o.get(p), put: (o, p, v) => { o.set(p, v); }},
    {make: () => new Map(), get: (o, p) => { for (let [k, x] of o) if (x & p) return k; },
     put: (o, p, v) => { let m = new Map(); for (let [k, x] of o) { x &= ~p; if (x) m.set(k, x); } o.clear(); for (let [k, x] of m) o.set(k, x); if (v !== undefined) o.set(v, (o.get(v) ?? 0) | p); }},
    {make: () => new Priv(), get: (o, p) => o.get(p), put: (o, p, v) => o.put(p, v)},
    {make: () => new Proxy({}, {}), get: (o, p) => o["p" + p], put: (o, p, v) => { o["p" + p] = v; }},
    {make: () => { let t = {}; return new Proxy(Object.create({}), {h: t, get(x, k) { return k === "id" ? Reflect.get(x, k) : t[k]; }, set(x, k, v) { t[k] = v; return true; }}); },
     get: (o, p) => o["p" + p], put: (o, p, v) => { o["p" + p] = v; }},
    {make: () => ({}), get: (o, p) => o[p == 1 ? S1 : S2], put: (o, p, v) => { o[p == 1 ? S1 : S2] = v; }},
    {make: () => ({}), get: (o, p) => o["f" + p]?.(), put: (o, p, v) => { o["f" + p] = function () { return this.v; }.bind({v}); }},
    {make: () => { let l = [undefined, undefined, undefined]; return {get p1() { return l[1]; }, set p1(v) { l[1] = v; }, get p2() { return l[2]; }, set p2(v) { l[2] = v; }}; },
     get: (o, p) => o["p" + p], put: (o, p, v) => { o["p" + p] = v; }},
    {make: () => (function (a, b, c) { return arguments; })(0, undefined, undefined), get: (o, p) => o[p], put: (o, p, v) => { o[p] = v; }},
    {make: () => new Error("x"), get: (o, p) => o["c" + p]?.cause, put: (o, p, v) => { o["c" + p] = v === undefined ? undefined : new Error("y", {cause: v}); }},
    {make: () => ({}), get: (o, p) => o["c" + p]?.k, put: (o, p, v) => { o["c" + p] = new (class { static #v = v; static get k() { return this.#v; } })().constructor; }},
    {make: () => ({}), get: (o, p) => o["c" + p] && Object.getPrototypeOf(o["c" + p]).v, put: (o, p, v) => { o["c" + p] = Object.create({v}); }},
    {make: () => ({}), get: (o, p) => o["c" + p]?.next().value, put: (o, p, v) => { let f = () => [v, v][Symbol.iterator](); Object.defineProperty(o, "c" + p, {get: f, configurable: true}); }},
    {make: () => ({}), get: (o, p) => o["c" + p]?.get(o), put: (o, p, v) => { let w = new WeakMap(); w.set(o, v); o["c" + p] = w; }},
];
function make(s, k, id) {
    if (k == "y") return Symbol("" + id);
    if (k == "o") {
        let st = styles[(s.c + id * 7) % styles.length], o = named(st.make(), id);
        s.st[id] = st;
        return o;
    }
    s.st[id] = styles[0];
    return named(k == "m" ? new WeakMap() : k == "s" ? new WeakSet() : make_fr(s, id), id);
}
function make_fr(s, id) { let f = new FinalizationRegistry(h => { s.fired.push([id, typeof h === "number" ? h : 1000 + ident(h)]); }); s.fr.push(f); return f; }
function kind(x) {
    return typeof x === "symbol" ? "y" : x instanceof WeakRef ? "w" : x instanceof WeakMap ? "m" : x instanceof WeakSet ? "s" : x instanceof FinalizationRegistry ? "f" : "o";
}
function walk(s) {
    let seen = new Map(), l = [];
    function add(x) { if (x !== undefined && !seen.has(x)) { seen.set(x, []); l.push(x); return true; } return false; }
    for (let x of s.v) add(x);
    for (let x of s.fr) add(x);
    for (let more = true; more;) {
        more = false;
        for (let i = 0; i < l.length; i ++) {
            let x = l[i], k = kind(x);
            if (k == "y") continue;
            for (let p of [1, 2]) if (add(s.st[x.id].get(x, p))) more = true;
            if (k == "m") for (let j = 0; j < l.length; j ++) if (x.has(l[j]) && add(x.get(l[j]))) more = true;
        }
    }
    l.sort((a, b) => ident(a) - ident(b));
    return l.map(x => {
        let k = kind(x), e = [];
        if (k == "m") for (let y of l) if (x.has(y)) e.push([ident(y), ident(x.get(y))]);
        if (k == "s") for (let y of l) if (x.has(y)) e.push([ident(y), 0]);
        return [ident(x), k, k == "y" ? [0, 0] : [1, 2].map(p => ident(s.st[x.id].get(x, p))), k == "w" ? ident(x.deref()) : 0, e];
    });
}
function run(s, x) {
    let at = i => i ? s.v[i - 1] : undefined, set = (k, y) => { if (k) s.v[k - 1] = y; return ident(y) ? ["i", ident(y)] : ["u"]; };
    let a = at(x.i);
    if (x.n != "reg" && x.n != "unreg") {
        if ((x.n == "link" || x.n == "foll") && (a === undefined || typeof a === "symbol")) return ["none"];
        if (x.n == "deref" && !(a instanceof WeakRef)) return ["none"];
        if (/^m(set|get|has|del)/.test(x.n) && !(a instanceof WeakMap)) return ["none"];
        if (/^s(add|has|del)/.test(x.n) && !(a instanceof WeakSet)) return ["none"];
    } else {
        a = s.fr[x.i - 1];
        if (a === undefined) return ["none"];
    }
    try {
        switch (x.n) {
        case "new": { s.n ++; return set(x.i, make(s, x.kind, s.n)); }
        case "mv": s.v[x.i - 1] = at(x.j); return ["u"];
        case "drop": for (let i of x.l) s.v[i - 1] = undefined; return ["u"];
        case "walk": return walk(s);
        case "link": s.st[a.id].put(a, x.p, at(x.j)); return ["u"];
        case "foll": return set(x.k, s.st[a.id].get(a, x.p));
        case "wref": { let w = new WeakRef(at(x.i)); s.n ++; s.st[s.n] = styles[0]; return set(x.k, named(w, s.n)); }
        case "deref": return set(x.k, a.deref());
        case "mset": return a.set(at(x.j), at(x.k)) === a ? ["u"] : ["?"];
        case "mget": return set(x.k, a.get(at(x.j)));
        case "mhas": case "shas": return ["b", a.has(at(x.j))];
        case "mdel": case "sdel": return ["b", a.delete(at(x.j))];
        case "sadd": return a.add(at(x.j)) === a ? ["u"] : ["?"];
        case "reg": { let r = x.k ? a.register(at(x.j), x.ho && at(x.ho) !== undefined ? at(x.ho) : x.h, at(x.k)) : a.register(at(x.j), x.ho && at(x.ho) !== undefined ? at(x.ho) : x.h); return r === undefined ? ["u"] : ["?"]; }
        case "unreg": return ["b", a.unregister(at(x.j))];
        }
    } catch (e) { return ["throw", e.name]; }
}
function newSUT(c) { let s = {v: [], fr: [], st: [], fired: [], n: 0, c, t: 0}; for (let i = 0; i < c; i ++) s.v.push(undefined); return s; }
function boom() { throw 0; }
function step(s, x) {
    let r;
    s.t ++;
    s.fired = [];
    Promise.resolve().then(() => { r = run(s, x); });
    H_solveJobs();
    let n;
    try { boom(); } catch (e) {}   /* the engine keeps the context of the last error */
    do {
        n = s.fired.length;
        H_gc();
        H_solveJobs();
    } while (s.fired.length > n);
    return [r, s.fired.sort((a, b) => a[0] - b[0] || a[1] - b[1])];
}
