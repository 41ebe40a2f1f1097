/* BinOps.tla on real buffers, typed arrays and DataViews. */
let alt = 0;
const KIND = {I8: Int8Array, U8: Uint8Array, C8: Uint8ClampedArray, I16: Int16Array, U16: Uint16Array, I32: Int32Array, U32: Uint32Array,
    B64: BigInt64Array, V64: BigUint64Array, F32: Float32Array, F64: Float64Array};
const DVN = {I8: "Int8", U8: "Uint8", I16: "Int16", U16: "Uint16", I32: "Int32", U32: "Uint32", B64: "BigInt64", V64: "BigUint64", F32: "Float32", F64: "Float64"};
const MAXB = 5, MAXV = 9;
function lim(a) { let m = []; while (a > 0) { let d = a % 4096; m.push(d); a = (a - d) / 4096; } return m; }
function unlim(m) { let r = 0; for (let i = m.length - 1; i >= 0; i --) r = r * 4096 + m[i]; return r; }
function bigOf(a) { let v = 0n; for (let i = a.m.length - 1; i >= 0; i --) v = (v << 12n) | BigInt(a.m[i]); return a.n ? -v : v; }
function image(v) {
    if (v === undefined) return ["u"];
    if (typeof v == "boolean") return ["b", v];
    if (typeof v == "bigint") {
        let n = v < 0n, m = [];
        if (n) v = -v;
        while (v > 0n) { m.push(Number(v & 4095n)); v >>= 12n; }
        return ["n", {n, m}];
    }
    if (typeof v != "number") return ["?", typeof v];
    if (v !== v || v === Infinity || v === -Infinity) return ["x", String(v)];
    let n = v < 0 || Object.is(v, -0), a = n ? -v : v, e = 0;
    if (a == 0) return ["f", n, [], 0];
    while (a % 1 != 0) { a *= 2; e --; }
    while (a >= 9007199254740992) { a /= 2; e ++; }
    while (a % 2 == 0) { a /= 2; e ++; }
    return ["f", n, lim(a), e];
}
function value(s, a) {
    switch (a[0]) {
    case "u": return undefined;
    case "i": return a[1];
    case "n": return bigOf(a[1]);
    case "x": return Number(a[1]);
    case "f": { let v = unlim(a[2]); v = a[3] < -1000 ? v * 2 ** (a[3] + 500) * 2 ** -500 : v * 2 ** a[3]; return a[1] ? -v : v; }
    case "d": { let w = value(s, a[1]); return {valueOf() { let b = s.b[a[2] % s.b.length]; if (b instanceof ArrayBuffer) H_detach(b); return w; }}; }
    }
}
function addB(s, b) {
    if (s.b.length < MAXB) { s.b.push(b); return; }
    let old = s.b[MAXB - 1];
    for (let i = 0; i < s.v.length; i ++) if (s.vb[i] === old) { s.v[i] = s.v[0]; s.vb[i] = s.vb[0]; }
    s.b[MAXB - 1] = b;
}
function addV(s, v, slot) {
    let i = s.v.length < MAXV ? s.v.length : slot % (MAXV - 1) + 1;
    s.v[i] = v; s.vb[i] = v.buffer;
    return ["view", v instanceof DataView ? v.byteLength : v.length, v.byteOffset];
}
function fresh(s, t, k, slot) {
    if (Object.getPrototypeOf(t) !== KIND[k].prototype || t.byteLength != t.buffer.byteLength || t.byteOffset !== 0) return ["bad result"];
    addB(s, t.buffer);
    return addV(s, t, slot);
}
function nan(v) { if (v instanceof DataView) return false; for (let i = 0; i < v.length; i ++) if (v[i] !== v[i]) return true; return false; }
function newSUT(c) {
    let b = new ArrayBuffer(c.len), u = new Uint8Array(b);
    return {b: [b], v: [u], vb: [b]};
}
function args(s, l) { while (l.length && l[l.length - 1][0] == "u") l.pop(); return l.map(a => value(s, a)); }
function prop(k) { return k[0] == "i" ? (alt ++ % 2 ? k[1] : String(k[1])) : k[1]; }
function step1(s, x) {
    let v = s.v[x.v % s.v.length], b = s.b[x.b % s.b.length], dv = v instanceof DataView, T = x.k && KIND[x.k], val = x.val && value(s, x.val), r;
    if (["ofview", "reverse", "toReversed", "with", "map"].includes(x.n) && nan(v) || x.n == "setv" && nan(s.v[x.w % s.v.length])) return ["skip"];
    switch (x.n) {
    case "buf": r = x.sh ? new SharedArrayBuffer(x.len) : new ArrayBuffer(x.len); if (r.byteLength !== x.len) return ["length"]; addB(s, r); return ["u"];
    case "view": r = new (x.k == "DV" ? DataView : T)(b, ...args(s, [x.o, x.l])); if (r.buffer !== b) return ["buffer"]; return addV(s, r, x.slot);
    case "ofview": return fresh(s, new T(v), x.k, x.slot);
    case "oflist": { let l = x.vs.map(a => value(s, a)); return fresh(s, [() => new T(l), () => new T({length: l.length, ...l}), () => T.from(l), () => T.of(...l), () => new T(new Map(l.map((w, i) => [i, w])).values())][alt ++ % 5](), x.k, x.slot); }
    case "ofLen": return fresh(s, new T(x.len), x.k, x.slot);
    case "detach": if (b instanceof ArrayBuffer) H_detach(b); return ["u"];
    case "bslice": r = b.slice(...args(s, [x.p, x.q])); if (r === b || r.constructor !== b.constructor) return ["slice"]; addB(s, r); return ["u"];
    case "dvget": return image(DataView.prototype["get" + DVN[x.k]].call(v, value(s, x.o), x.le));
    case "dvset": return image(DataView.prototype["set" + DVN[x.k]].call(v, value(s, x.o), val, x.le));
    case "lens": return ["l", dv ? [v.byteLength, v.byteOffset] : [v.byteLength, v.byteOffset, v.length]];
    }
    if (dv) return ["dv"];
    switch (x.n) {
    case "get": { let p = prop(x.key); return image([() => v[p], () => Reflect.get(v, p), () => { let {[p]: q} = v; return q; }, () => Object.create(v)[p]][alt ++ % 4]()); }
    case "set": { let p = prop(x.key); if (alt ++ % 2) return ["b", Reflect.set(v, p, val)]; v[p] = val; return ["b", true]; }
    case "has": { let p = prop(x.key); r = p in v; if (Object.hasOwn(v, p) !== r || Reflect.has(v, p) !== r) return ["has"]; return ["b", r]; }
    case "del": { let p = prop(x.key); if (alt ++ % 2) return ["b", Reflect.deleteProperty(v, p)]; try { return ["b", delete v[p]]; } catch (e) { return ["b", !(e instanceof TypeError)]; } }
    case "desc": r = Object.getOwnPropertyDescriptor(v, prop(x.key)); if (!r) return ["u"]; if (!(r.writable && r.enumerable && r.configurable)) return ["attributes"]; return ["desc", image(r.value)];
    case "def": { let d = x.bad ? [{configurable: false}, {enumerable: false}, {writable: false}, {get() {}}][alt ++ % 4] : [{configurable: true, enumerable: true, writable: true}, {}][alt ++ % 2];
        if (x.val[0] != "u" && !("get" in d)) d.value = val;
        return ["b", Reflect.defineProperty(v, prop(x.key), d)]; }
    case "keys": { let k = Object.keys(v); for (let i = 0; i < k.length; i ++) if (k[i] !== String(i)) return ["keys"]; let n = 0; for (let p in v) n ++; if (n != k.length || Reflect.ownKeys(v).length != n) return ["for-in"]; return ["i", n]; }
    case "subarray": r = v.subarray(...args(s, [x.p, x.q])); if (r.buffer !== v.buffer || r.constructor !== v.constructor) return ["subarray"]; return addV(s, r, x.slot);
    case "setv": return image(v.set(s.v[x.w % s.v.length], value(s, x.o)));
    case "setl": { let l = x.vs.map(a => value(s, a)); return image(v.set(alt ++ % 2 ? l : {length: l.length, ...l}, value(s, x.o))); }
    case "slice": case "with": case "toReversed": case "map": {
        let k = Object.keys(KIND).find(k => v.constructor === KIND[k]);
        return fresh(s, x.n == "slice" ? v.slice(...args(s, [x.p, x.q])) : x.n == "with" ? v.with(value(s, x.p), val) : x.n == "map" ? v.map(e => e) : v.toReversed(), k, x.slot);
    }
    case "copyWithin": r = v.copyWithin(...args(s, [x.p, x.q, x.z])); return r === v ? ["u"] : ["?"];
    case "fill": r = v.fill(val, ...args(s, [x.p, x.q])); return r === v ? ["u"] : ["?"];
    case "reverse": r = v.reverse(); return r === v ? ["u"] : ["?"];
    case "indexOf": case "lastIndexOf": return ["i", v[x.n](val, ...args(s, [x.p]))];
    case "includes": return ["b", v.includes(val, ...args(s, [x.p]))];
    case "at": return image(v.at(value(s, x.p)));
    }
}
function step(s, x) {
    let r;
    try { r = step1(s, x); } catch (e) { r = ["throw", e instanceof Error ? e.name : String(e)]; }
    let d = s.b.map(b => { let n = b.byteLength; if (!n) return []; let u = new Uint8Array(b), o = []; for (let i = 0; i < n; i ++) o.push(u[i]); return o; });
    return [r, d];
}
