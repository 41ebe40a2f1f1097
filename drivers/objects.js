/* Objects.tla on real objects.  c: list of [kind, proto, host] / ["proxy", target]. */
let log, H, ids, hds, revs, dp, cn = 0, alt, FN, VO, SY, own0;
const sloppy = f => Function("return " + f)();
const NUMOFF = 2147483648;
const putS = (o, k, v) => o[k] = v;              /* strict: this file is strict code */
const putL = sloppy("function (o, k, v) { return o[k] = v; }");
const delS = (o, k) => delete o[k];
const CGET = new Map(), CPUT = new Map(), CDEL = new Map(), CHAS = new Map();
function lit(k) { return /^[A-Za-z_]+$/.test(k) ? "." + k : /^(0|[1-9][0-9]*)$/.test(k) ? "[" + k + "]" : "[" + JSON.stringify(k) + "]"; }
function cached(m, k, mk) { let f = m.get(k); if (!f) { f = mk(lit(k)); m.set(k, f); } return f; }
const WELLKNOWN = {"@@species": Symbol.species, "@@iterator": Symbol.iterator, "@@isConcatSpreadable": Symbol.isConcatSpreadable};
function sym(n) { if (!SY[n] && WELLKNOWN[n]) SY[n] = WELLKNOWN[n]; if (!SY[n]) SY[n] = Symbol(n); return SY[n]; }
function fn(n) {
    if (!FN[n]) {
        FN[n] = function (...a) {
            if (a.length == 0) { log.push(["get", n, im(this)]); return "val-" + n; }
            log.push(["set", n, im(this), im(a[0])]);
        };
        ids.set(FN[n], ["f", n]);
    }
    return FN[n];
}
function vo(n) {
    if (!VO[n]) {
        VO[n] = {valueOf() { log.push(["valueOf"]); return n + NUMOFF; }};
        ids.set(VO[n], ["v", n]);
    }
    return VO[n];
}
function ctor(n) {
    if (!VO["c" + n]) {
        VO["c" + n] = function (...a) { log.push(["construct", n].concat(a.map(im))); return H[n]; };
        ids.set(VO["c" + n], ["c", n]);
    }
    return VO["c" + n];
}
function re(v) {
    switch (v[0]) {
    case "u": return undefined;
    case "l": return null;
    case "b": return v[1];
    case "n": return v[1] + NUMOFF;
    case "x": return Number(v[1]);
    case "i": return v[1];
    case "c": return ctor(v[1]);
    case "vd": return {valueOf() { log.push(["valueOf"]); dp ++; try { doOp(v[2]); } finally { dp --; } return v[1]; }};
    case "vt": return {valueOf() { log.push(["valueOf"]); throw "vt"; }};
    case "s": return v[1];
    case "y": return sym(v[1]);
    case "o": return v[1] == 0 ? null : H[v[1]];
    case "f": return fn(v[1]);
    case "v": return vo(v[1]);
    }
    throw "bad value";
}
function im(v) {
    if (v === undefined) return ["u"];
    if (v === null) return ["l"];
    switch (typeof v) {
    case "boolean": return ["b", v];
    case "number": return v >= 0 && v <= 4294967295 && v === Math.floor(v) && !Object.is(v, -0) ? ["n", v - NUMOFF] : ["x", Object.is(v, -0) ? "-0" : String(v)];
    case "string": return ["s", v];
    case "symbol": for (let n in SY) if (SY[n] === v) return ["y", n]; return ["y", "?"];
    }
    return ids.get(v) || ["?"];
}
function key(k) {
    if (k.substring(0, 2) == "@@") return sym(k);
    if (alt % 2 && /^(0|[1-9][0-9]{0,9})$/.test(k)) return Number(k);
    return k;
}
function pd(d) {
    let r = {};
    if (d.v.length) r.value = re(d.v[0]);
    if (d.w.length) r.writable = d.w[0];
    if (d.g.length) r.get = re(d.g[0]);
    if (d.s.length) r.set = re(d.s[0]);
    if (d.e.length) r.enumerable = d.e[0];
    if (d.c.length) r.configurable = d.c[0];
    return r;
}
function showPd(d) {
    if (d === undefined) return ["u"];
    let r = [], names = ["value", "writable", "get", "set", "enumerable", "configurable"];
    for (let n of names) if (Object.hasOwn(d, n)) r.push([n, im(d[n])]);
    let k = Reflect.ownKeys(d);
    if (k.length != r.length) r.push(["extra", String(k)]);
    if (Object.getPrototypeOf(d) !== Object.prototype) r.push(["proto"]);
    return r;
}
const KINDS = {
    obj: () => ({}),
    nullobj: () => Object.create(null),
    inst: () => new (class A { #p = 1; })(),
    fn: () => { let f = () => 1; delete f.length; delete f.name; return f; },
    bound: () => { let f = (function () { }).bind(null); delete f.length; delete f.name; return f; },
    native: () => { let f = Object.getOwnPropertyDescriptor(Map.prototype, "size").get.bind(1); delete f.length; delete f.name; return f; },
    args: () => { let a = sloppy("(function () { return arguments; })(1, 2)"); delete a[0]; delete a[1]; delete a.length; delete a.callee; delete a[Symbol.iterator]; return a; },
    margs: () => { let a = sloppy("(function (p, q) { return arguments; })(1, 2)"); delete a[0]; delete a[1]; delete a.length; delete a.callee; delete a[Symbol.iterator]; return a; },
    date: () => new Date(0),
    regexp: () => { let r = /x/; Object.defineProperty(r, "lastIndex", {writable: false}); return r; },
    str: () => new String(""),
    num: () => new Number(1),
    bool: () => new Boolean(false),
    symo: () => Object(Symbol()),
    big: () => Object(1n),
    map: () => new Map(), set: () => new Set(), weak: () => new WeakMap(),
    promise: () => Promise.resolve(1),
    buf: () => new ArrayBuffer(4), view: () => new DataView(new ArrayBuffer(4)),
    gen: () => (function* () { })(),
    err: () => { let e = new Error(); for (let k of Reflect.ownKeys(e)) delete e[k]; return e; },
    iter: () => [][Symbol.iterator](),
    ta: () => new Uint8Array(3),                 /* only with keys that are no numbers */
    json: () => JSON.parse("{}"),
    spread: () => ({...{}}),
    arr: () => [], arrn: () => new Array(), arrf: () => Array.from([]), arrs: () => new (class extends Array { })(),
    arrj: () => JSON.parse("[]"), arrt: () => (x => x)``.slice(1), arrr: () => ((...r) => r)(), arrm: () => [1, 2].filter(() => false)
};
const TRAPS = ["getPrototypeOf", "setPrototypeOf", "isExtensible", "preventExtensions", "getOwnPropertyDescriptor", "defineProperty",
               "has", "get", "set", "deleteProperty", "ownKeys"];
function argIm(name, i, a) {
    if (name == "defineProperty" && i == 2) return showPd(a);
    return im(a);
}
function setTrap(o, name, b) {
    let h = hds[o];
    if (b[0] == "none") { delete h[name]; return; }
    if (b[0] == "null") { h[name] = null; return; }
    if (b[0] == "bad") { h[name] = 5; return; }
    h[name] = function (...a) {
        let rec = ["trap", name, (ids.get(a[0]) || ["?", 0])[1]];
        for (let i = 1; i < a.length; i ++) rec.push(argIm(name, i, a[i]));
        if (this !== h) rec.push("bad this");
        log.push(rec);
        switch (b[0]) {
        case "throw": throw "trap";
        case "fwd": return Reflect[name](...a);
        case "ret": return re(b[1]);
        case "desc": return pd(b[1]);
        case "keys": return b[1].map(re);
        case "do":
            dp ++;
            try { doOp(b[1]); } finally { dp --; }
            return re(b[2]);
        }
    };
}
function newSUT(c) {
    log = []; H = [null]; ids = new Map(); hds = []; revs = []; dp = 0; alt = c.length; FN = {}; VO = {}; SY = {...WELLKNOWN}; own0 = [];
    let later = [];
    c.forEach((x, i) => {
        let o, id = i + 1;
        if (x[0] == "proxy") {
            hds[id] = {};
            let p = Proxy.revocable(H[x[1]], hds[id]);
            o = p.proxy; revs[id] = p.revoke;
        } else {
            o = KINDS[x[2] || x[0]]();
            Object.setPrototypeOf(o, x[1] == 0 ? null : H[x[1]]);
            own0[id] = x[0] == "arr" ? [] : Reflect.ownKeys(o);
            if (x[3]) later.push(() => { for (let kv of x[3]) o[key(kv[0])] = re(kv[1]); });
        }
        H[id] = o;
        ids.set(o, ["o", id]);
    });
    later.forEach(f => f());
    return 0;
}
function keyIm(k) { return typeof k == "symbol" ? im(k) : typeof k == "string" ? ["s", k] : ["?"]; }
function mine(o) { let f = own0[o] || []; return k => !f.includes(k); }
function doOp(x) {
    if (dp > 2) throw "deep";
    alt = (alt * 5 + 3) % 64;
    let v = alt >> 2, o = H[x.o], k = x.k === undefined ? undefined : key(x.k), str = typeof k == "string" && x.k == k || typeof k == "number";
    switch (x.n) {
    case "get": {
        let rc = re(x.rc);
        if (rc === o && v % 3 == 0 && str) return im(cached(CGET, x.k, l => Function("o", "return o" + l))(o));
        if (rc === o && v % 3 == 1) return im(o[k]);
        if (rc === o && v % 3 == 2 && v % 2) return im(Reflect.get(o, k));
        return im(Reflect.get(o, k, rc));
    }
    case "set": {
        let rc = re(x.rc);
        if (rc === o && v % 2) return im(Reflect.set(o, k, re(x.v)));
        return im(Reflect.set(o, k, re(x.v), rc));
    }
    case "put":
        if (v % 3 == 0 && str) return im(cached(CPUT, x.k, l => Function("o", "v", "'use strict'; return o" + l + " = v"))(o, re(x.v)));
        if (v % 3 == 1) { let val = re(x.v); [o[k]] = [val]; return im(val); }
        return im(putS(o, k, re(x.v)));
    case "puts": return im(putL(o, k, re(x.v)));
    case "has":
        if (v % 3 == 0 && str) return im(cached(CHAS, x.k, l => Function("o", "return " + JSON.stringify(x.k) + " in o"))(o));
        return im(v % 2 ? k in o : Reflect.has(o, k));
    case "del": return im(Reflect.deleteProperty(o, k));
    case "dels":
        if (v % 3 == 0 && str) return im(cached(CDEL, x.k, l => Function("o", "'use strict'; return delete o" + l))(o));
        return im(delS(o, k));
    case "def": return im(Reflect.defineProperty(o, k, pd(x.d)));
    case "deft": return im(v % 2 ? Object.defineProperty(o, k, pd(x.d)) : Object.defineProperties(o, {[k]: pd(x.d)}));
    case "gopd": return showPd(v % 2 ? Object.getOwnPropertyDescriptor(o, k) : Reflect.getOwnPropertyDescriptor(o, k));
    case "hop": return im(v % 2 ? Object.hasOwn(o, k) : Object.prototype.hasOwnProperty.call(o, k));
    case "pie": return im(Object.prototype.propertyIsEnumerable.call(o, k));
    case "keys": {
        let ks = Reflect.ownKeys(o);
        if (!Array.isArray(ks)) return ["no array"];
        return ks.filter(mine(x.o)).map(keyIm);
    }
    case "okeys": return Object.keys(o).filter(mine(x.o)).map(keyIm);
    case "oents": return Object.entries(o).filter(e => mine(x.o)(e[0])).flatMap(e => [keyIm(e[0]), im(e[1])]);
    case "getp": return im(v % 2 ? Object.getPrototypeOf(o) : Reflect.getPrototypeOf(o));
    case "setp": return im(Reflect.setPrototypeOf(o, H[x.p]));
    case "setpt": return im(Object.setPrototypeOf(o, H[x.p]));
    case "pe": return im(Reflect.preventExtensions(o));
    case "pet": return im(Object.preventExtensions(o));
    case "ie": return im(v % 2 ? Object.isExtensible(o) : Reflect.isExtensible(o));
    case "freeze": return im(Object.freeze(o));
    case "seal": return im(Object.seal(o));
    case "isfrozen": return im(Object.isFrozen(o));
    case "issealed": return im(Object.isSealed(o));
    case "trap": setTrap(x.o, x.t, x.b); return ["u"];
    case "revoke": revs[x.o](); return ["u"];
    case "nop": return ["u"];
    }
    return ["unknown op " + x.n];
}
function step(s, x) {
    let r;
    log = []; dp = 0; cn = 0;
    try { r = ["ok", doOp(x)]; }
    catch (e) {
        r = ["throw", typeof e == "string" ? e : e instanceof TypeError ? "TypeError" : e instanceof RangeError ? "RangeError" : String(e)];
    }
    let l = log;
    log = [];
    return {v: r, l};
}
