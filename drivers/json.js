/* JsonOps.tla on the real JSON object. */
let alt = 0;
function str(u) { alt ++; if (alt % 2) return String.fromCharCode(...u); let s = ""; for (let c of u) s += String.fromCharCode(c); return s; }
function units(s) { if (typeof s != "string") return ["?", typeof s]; let r = []; for (let i = 0; i < s.length; i ++) r.push(s.charCodeAt(i)); return r; }
let S;
function ref(v) { return S.o.indexOf(v) + 1; }
function val(v) {
    switch (v[0]) {
    case "u": return undefined;
    case "z": return null;
    case "b": case "i": return v[1];
    case "h": return v[1] + 0.5;
    case "x": return v[1] == "-0" ? -0 : Number(v[1]);
    case "s": return str(v[1]);
    case "y": return Symbol("q");
    case "g": return BigInt(v[1]);
    case "fn": return fun(v[1], "toJSON");
    case "r": return S.o[v[1] - 1];
    }
}
function image(v) {
    switch (typeof v) {
    case "undefined": return ["u"];
    case "boolean": return ["b", v];
    case "number":
        if (v !== v || v === Infinity || v === -Infinity) return ["x", String(v)];
        if (v === 0) return 1 / v < 0 ? ["x", "-0"] : ["i", 0];
        if (v % 1 === 0) return ["i", v];
        return v - 0.5 === Math.floor(v) ? ["h", v - 0.5] : ["number", String(v)];
    case "string": return ["s", units(v)];
    case "symbol": return ["y"];
    case "bigint": return ["g", Number(v)];
    case "function": return ["fn"];
    }
    if (v === null) return ["z"];
    if (ref(v)) return ["r", ref(v)];
    let a = Array.isArray(v);
    if (Object.getPrototypeOf(v) !== (a ? Array.prototype : Object.prototype)) return ["prototype"];
    return a ? ["a", v.length, props(v)] : ["o", props(v)];
}
function props(o) {
    let r = [];
    for (let k of Reflect.ownKeys(o)) {
        if (Array.isArray(o) && k === "length") continue;
        let d = Reflect.getOwnPropertyDescriptor(o, k);
        if (!ref(o) && !(d.writable && d.enumerable && d.configurable) && !Object.isFrozen(o)) { r.push([units(k), ["attributes"]]); continue; }
        r.push([units(k), "get" in d ? ["get"] : image(d.value)]);
    }
    return r;
}
function mine() { let e = new Error("x"); e.name = "Mine"; return e; }
function fun(F, kind) {
    function call(self, n, key, value) {
        if (n != (kind == "toJSON" ? 1 : kind == "get" ? 0 : kind == "reviver" && typeof process == "object" ? 3 : 2)) S.log.push(["arguments", n]);
        if (kind == "toJSON") value = self;
        if (kind == "get") { key = ""; value = undefined; }
        S.log.push([F.id, image(self), units(key), image(value)]);
        let act = F.d;
        for (let [k, a] of F.a) if (str(k) === key) { act = a; break; }
        if (act[0] == "ret") return val(act[1]);
        if (act[0] == "thr") throw mine();
        if (act[0] == "id") return value;
        let t = act[1][0] == "h" ? self : act[1][0] == "v" ? value : val(act[1]);
        if (typeof t == "object" && t !== null) switch (act[0]) {
        case "del": Reflect.deleteProperty(t, str(act[2])); break;
        case "put": Reflect.defineProperty(t, str(act[2]), {value: val(act[3]), writable: true, enumerable: true, configurable: true}); break;
        case "len": if (Array.isArray(t)) Reflect.set(t, "length", act[2]); break;
        case "frz": Object.freeze(t); break;
        }
        return value;
    }
    return kind == "get" ? function () { return call(this, arguments.length); } : function (key, value) { return call(this, arguments.length, key, value); };
}
function reg(v) { if (typeof v == "object" && v !== null) { S.o.push(v); for (let k of Reflect.ownKeys(v)) if (k !== "length" || !Array.isArray(v)) reg(v[k]); } }
function prox(t) { let r = new Proxy(t, {}); S.px.add(r); return r; }
function newSUT(c) { return {o: [], log: [], px: new Set()}; }
function step1(x) {
    let o = x.o && S.o[x.o - 1], r;
    switch (x.n) {
    case "new": r = x.k == "w" ? Object(val(x.x)) : x.k == "p" ? prox(val(x.x)) : x.k == "a" ? [] : {};
        if (x.pr) { if (x.k == "o" && alt % 2) r = Object.create(S.o[x.pr - 1]); else Object.setPrototypeOf(r, S.o[x.pr - 1]); }
        S.o.push(r); return ["r", S.o.length];
    case "put": Reflect.defineProperty(o, str(x.key), x.v[0] == "get" ? {get: fun(x.v[1], "get"), set: undefined, enumerable: x.e, configurable: true} : {value: val(x.v), writable: true, enumerable: x.e, configurable: true}); return ["u"];
    case "del": Reflect.deleteProperty(o, str(x.key)); return ["u"];
    case "len": if (Array.isArray(o)) Reflect.set(o, "length", x.len); return ["u"];
    case "frz": Object.freeze(o); return ["u"];
    case "parse": {
        let t = str(x.t);
        if (alt % 3 == 0) t = {toString() { return str(x.t); }};
        r = x.rv[0] == "fn" ? JSON.parse(t, fun(x.rv[1], "reviver")) : x.rv[0] == "u" ? JSON.parse(t) : JSON.parse(t, val(x.rv));
        let i = image(r);
        if (x.rv[0] != "fn" && !x.drop) reg(r);
        return i;
    }
    case "str": {
        let a = [val(x.v), x.rp[0] == "fn" ? fun(x.rp[1], "replacer") : val(x.rp), val(x.sp)];
        while (a.length > 1 && a[a.length - 1] === undefined) a.pop();
        return image(JSON.stringify(...a));
    }
    }
}
function step(s, x) {
    let r;
    S = s; S.log = [];
    try { r = step1(x); } catch (e) { r = ["throw", e instanceof Error ? e.name : String(e)]; }
    let log = S.log;
    return [r, log, s.o.map(o => (o instanceof Number || o instanceof String || o instanceof Boolean || o instanceof BigInt || s.px.has(o)) ? [] : [Array.isArray(o) ? o.length : 0, props(o)])];
}
