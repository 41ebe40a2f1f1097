/* SymTpl.tla on the engine: symbols, the registry and template objects, in three realms */
function newSUT(c) {
    let rl = [globalThis, H_createRealm(), H_createRealm()];
    let s = {rl, syms: [], tpls: [], fns: [], holder: {}};
    for (let g of rl) Object.defineProperty(g, "H_tag", {configurable: true, value: (t, ...subs) => { s.seen.push(t); s.subs = subs; return t; }});
    return s;
}
const js = u => String.fromCharCode(...u);
const codes = t => t === undefined ? ["u"] : ["s", Array.from({length: t.length}, (x, i) => t.charCodeAt(i))];
function sym(s, y) {
    let i = s.syms.indexOf(y);
    if (i < 0) { s.syms.push(y); i = s.syms.length - 1; }
    return ["y", i + 1];
}
const text = t => t === undefined ? ["u"] : ["t", t];
/* a template literal: pieces and substitutions that log */
const lit = site => "`" + site.map((p, j) => js(p) + (j < site.length - 1 ? "${(L.push(" + (j + 1) + "), " + (j + 1) + ")}" : "")).join("") + "`";
/* ways to put sites into a function body; k selects one, it is evaluated twice */
const SHAPES = [
    b => "(L, k) => { for (let i = 0; i < 2; i ++) { " + b("") + " } }",
    b => "function (L, k) { let f = (i) => { " + b("") + " }; f(0); f(1); }",
    b => "function (L, k) { let g = function* () { for (let i = 0; i < 2; i ++) { yield 0; " + b("") + " } }; for (let x of g()) ; }",
    b => "function (L, k) { class A { m() { " + b("") + " } } new A().m(); new A().m(); }",
    b => "function (L, k) { let o = { t: H_tag }; for (let i of [1, 2]) with (o) { " + b("o.") + " } }",
    b => "(L, k) => { let r = (n, a = (() => { " + b("") + " })()) => { if (n) r(n - 1); }; r(1); }",
    b => "function (L, k) { label: do { try { " + b("") + " } finally { if (L.again) { L.again = false; continue label; } } } while (L.again); if (!L.done) { L.done = true; arguments.callee(L, k); } }",
];
function step1(s, x) {
    let rl = s.rl[x.realm ?? 0];
    switch (x.n) {
    case "symbol": return sym(s, x.d.length ? rl.Symbol(x.d[0]) : rl.Symbol());
    case "for": return sym(s, rl.Symbol.for(x.k));
    case "well": return sym(s, rl.Symbol[x.k]);
    case "keyFor": case "descr": case "str": case "put": case "get": case "del": {
        if (x.i > s.syms.length || x.i == 0) return ["none"];
        let y = s.syms[x.i - 1];
        switch (x.n) {
        case "keyFor": return text(rl.Symbol.keyFor(y));
        case "descr": return text(x.alt ? rl.Object(y).description : y.description);
        case "str": return text(x.alt ? rl.String(y) : rl.Object(y).toString());
        case "put": s.holder[x.alt ? rl.Object(y) : y] = x.v; return ["u"];
        case "get": { let v = s.holder[y]; return v === undefined ? ["u"] : ["i", v]; }
        case "del": delete s.holder[y]; return ["u"];
        }
    }
    case "keys": return ["l", Reflect.ownKeys(s.holder).map(y => s.syms.indexOf(y) + 1)];
    case "gc": H_gc(); return ["u"];
    case "fun": {
        let body = (p) => "switch (k) { " + x.sites.map((site, j) => "case " + (j + 1) + ": " + (p ? "o.t" : "H_tag") + lit(site) + "; break;").join(" ") + " }";
        let f = SHAPES[x.shape](body);
        let make = x.factory == 2 ? rl.Function("return " + f) : rl.H_evalScript(x.factory ? "() => (0, eval)(" + JSON.stringify("(" + f + ")") + ")" : "() => (" + f + ")");
        /* eval makes new sites: only one closure of it then */
        s.fns.push({make, once: x.factory == 1, all: [make()], sites: x.sites.length});
        return ["i", s.fns.length];
    }
    case "closure": {
        if (x.f > s.fns.length || x.f == 0) return ["none"];
        let f = s.fns[x.f - 1];
        if (!f.once) f.all.push(f.make());
        return ["u"];
    }
    case "call": {
        if (x.f > s.fns.length || x.f == 0) return ["none"];
        let f = s.fns[x.f - 1];
        if (x.k > f.sites) return ["none"];
        s.seen = [];
        let L = [];
        f.all[x.c % f.all.length](L, x.k);
        let t = s.seen[0], raw = t.raw;
        let half = L.length / 2;
        if (s.seen.length != 2) return ["calls", s.seen.length];
        if (String(L.slice(0, half)) != String(L.slice(half)) || String(L.slice(half)) != String(s.subs)) return ["subs", L, s.subs];
        let bad = [];
        for (let a of [t, raw]) {
            if (!Array.isArray(a) || !Object.isFrozen(a) || Object.isExtensible(a) || a.length != raw.length) bad.push("shape");
            for (let w of [() => { a[0] = 1; }, () => { a.push(1); }, () => { a.length = 0; }]) { try { w(); bad.push("write"); } catch (e) { if (e.name != "TypeError") bad.push(e.name); } }
            if (Reflect.ownKeys(a).length != a.length + (a === t ? 2 : 1)) bad.push("keys");
        }
        let d = Object.getOwnPropertyDescriptor(t, "raw");
        if (d.writable || d.enumerable || d.configurable) bad.push("raw");
        if (!s.rl.some(g => Reflect.getPrototypeOf(t) === g.Array.prototype && Reflect.getPrototypeOf(raw) === g.Array.prototype && Reflect.getPrototypeOf(f.make) === g.Function.prototype)) bad.push("realm");
        if (bad.length) return ["bad", bad];
        let id = o => { let i = s.tpls.indexOf(o); if (i < 0) { s.tpls.push(o); i = s.tpls.length - 1; } return i + 1; };
        return ["T", id(t), id(s.seen[1]), Array.from(t, (v, i) => [codes(v), codes(raw[i])[1]]), L.slice(0, half)];
    }
    case "plain": {
        let src = "(L => " + lit(x.site) + ")";
        return codes(rl.H_evalScript(src)([]));
    }
    }
}
function step(s, x) { try { return step1(s, x); } catch (e) { return ["throw", e && e.name]; } }
