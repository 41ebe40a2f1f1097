/* ArrayOps.tla on real arrays: the operations of objects.js and Array.prototype's methods. */
/*@include objects.js*/
let its = [];
const base_newSUT = newSUT, base_doOp = doOp;
newSUT = function (c) { its = []; return base_newSUT(c); };
function weight(v, div) {
    let e = im(v);
    switch (e[0]) {
    case "n": return Math.floor(v / div);
    case "s": return v.length;
    case "b": return v ? 1 : 0;
    case "o": return e[1];
    case "x": return 5;
    }
    return 0;
}
function comparator(c) {
    if (c[0] == "none") return undefined;
    if (c[0] == "bad") return {};
    if (c[0] == "throw") return () => { throw "cb"; };
    let n = 0;
    return function (a, b) {
        if (a === undefined || b === undefined || arguments.length != 2 || this !== undefined) log.push(["bad comparator call"]);
        let r = (weight(a, c[1]) - weight(b, c[1])) * c[2];
        switch (n ++ % 4) {
        case 0: return r;
        case 1: return r == 0 ? NaN : String(r);
        case 2: return r == 0 ? undefined : r * 0.25;
        default: return {valueOf() { return r; }};
        }
    };
}
function callback(cb) {
    if (cb.bad) return 5;
    return function (...a) {
        log.push(["cb", im(this)].concat(a.map(im)));
        cn ++;
        let n = cn;
        if (n == cb.t) throw "cb";
        if (n == cb.d) { dp ++; try { doOp(cb.op); } finally { dp --; } }
        return re(cb.b[(n - 1) % cb.b.length]);
    };
}
function outIm(v) {
    let r = im(v);
    if (r[0] == "?" && Array.isArray(v)) {
        if (Object.getPrototypeOf(v) !== Array.prototype) return ["array with another prototype"];
        Object.setPrototypeOf(v, null);
        H.push(v);
        own0[H.length - 1] = [];
        ids.set(v, ["o", H.length - 1]);
        return ["o", H.length - 1];
    }
    return r;
}
function sortBig(x) {
    let a = new Array(x.len);
    for (let i = 1; i <= x.len; i ++) {
        if (x.hole > 0 && i % x.hole == 0) continue;
        if (x.und > 0 && i % x.und == 0) { a[i - 1] = undefined; continue; }
        let v = (x.p[0] * i * i + x.p[1] * i + x.p[2]) % x.p[3];
        a[i - 1] = x.str ? v : {v, i: i - 1};
    }
    let c = (p, q) => (Math.floor(p.v / x.div) - Math.floor(q.v / x.div)) * x.sg, r;
    if (x.how == "like") { let o = Object.assign({}, a); o.length = x.len; a = o; }
    if (x.how == "to") { r = x.str ? a.toSorted() : a.toSorted(c); }
    else { r = x.str ? Array.prototype.sort.call(a) : Array.prototype.sort.call(a, c); if (r !== a) return ["other result"]; }
    let d = [], und = 0, hole = 0, phase = 0;
    for (let i = 0; i < x.len; i ++) {
        let ph = !Object.hasOwn(r, i) ? 2 : r[i] === undefined ? 1 : 0;
        if (ph < phase) return ["order"];
        phase = ph;
        if (ph == 2) hole ++; else if (ph == 1) und ++; else d.push(x.str ? r[i] : r[i].i);
    }
    if (r.length !== x.len) return ["length"];
    if (x.how == "to") { let h = 0; for (let i = 1; i <= x.len; i ++) if (x.hole > 0 && i % x.hole == 0) h ++; und -= h; hole += h; }
    return [d, und, hole];
}
const TA = {Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array};
function taSort(x) {
    let big = x.t.startsWith("Big"), v = x.a.map(re).map(y => big ? BigInt(y) : y), b = new ArrayBuffer((v.length + 3) * 8);
    let a = new TA[x.t](b, 8, v.length);
    v.forEach((y, i) => { a[i] = y; });
    let c = x.div == 0 ? undefined : (p, q) => (Math.floor(Number(p) / x.div) - Math.floor(Number(q) / x.div)) * x.sg;
    let r = x.how == "to" ? a.toSorted(c) : a.sort(c);
    if (x.how == "to" ? r === a || !(r instanceof TA[x.t]) || v.some((y, i) => !Object.is(a[i], y)) : r !== a) return ["other result"];
    let all = new Uint8Array(b);
    for (let i = 0; i < 8; i ++) if (all[i] || all[8 + v.length * a.BYTES_PER_ELEMENT + i]) return ["outside"];
    return Array.from(r, y => big ? ["i", Number(y)] : y !== y || !isFinite(y) || Object.is(y, -0) ? ["x", Object.is(y, -0) ? "-0" : String(y)] : ["i", y]);
}
function sortAny(x) {
    let a = [], seed = x.p[0], calls = 0;
    for (let i = 0; i < x.len; i ++) a.push(x.p[1] ? i % x.p[1] : i);
    let o = a.slice(), rnd = () => (seed = (seed * 1103515245 + 12345) % 2147483648) >> 8;
    let c = {
        one: () => 1, neg: () => -1, gt: (p, q) => p > q, rnd: () => rnd() % 3 - 1, nan: () => NaN, first: (p, q) => ++ calls % x.p[2] == 0 ? 1 : p - q,
        grow: (p, q) => { if (++ calls == x.p[2]) for (let i = 0; i < 50; i ++) a.push(-1); return p - q; },
        shrink: (p, q) => { if (++ calls == x.p[2]) a.length = 1; return p - q; },
        swap: (p, q) => { if (++ calls % x.p[2] == 0) { a[0] = -5; delete a[1]; } return q - p; }
    }[x.k];
    let r = x.how == "to" ? a.toSorted(c) : a.sort(c);
    let g = Array.from(r).slice(0, x.len).sort((p, q) => p - q), w = o.sort((p, q) => p - q);
    return g.length == w.length && g.every((y, i) => y === w[i]) ? ["permutation", g.length] : ["lost", g.length];
}
const CBM = ["every", "some", "forEach", "find", "findIndex", "findLast", "findLastIndex", "map", "filter", "reduce", "reduceRight", "flatMap"];
doOp = function (x) {
    if (x.n == "dump") return H.slice(1).map((o, i) => {
        if (hds[i + 1]) return [];
        return Object.getOwnPropertyNames(o).filter(mine(i + 1)).map(k => {
            let d = Object.getOwnPropertyDescriptor(o, k);
            return [k, Object.hasOwn(d, "value") ? im(d.value) : ["acc"]];
        });
    });
    if (x.n == "sortbig") return sortBig(x);
    if (x.n == "tasort") return taSort(x);
    if (x.n == "sortany") return sortAny(x);
    if (x.n != "am") return base_doOp(x);
    let o = H[x.o], m = x.m, a = (x.a || []).map(re);
    if (m == "iter") { its.push(Array.prototype[x.k].call(o)); return ["u"]; }
    if (m == "next") {
        if (x.j > its.length) return ["none"];
        let r = its[x.j - 1].next();
        if (r.done) return r.value === undefined ? ["done"] : ["bad done"];
        return Array.isArray(r.value) && !ids.has(r.value) ? ["next"].concat(r.value.map(im)) : ["next", im(r.value)];
    }
    if (m == "isArray") return im(Array.isArray(o));
    if (m == "from") {
        let c = x.c[0] == "c" ? re(x.c) : x.c[0] == "u" ? Array : re(x.c);
        return outIm(x.map ? Array.from.call(c, o, callback(x.cb), ...(x.cb.th[0] == "u" ? [] : [re(x.cb.th)])) : Array.from.call(c, o));
    }
    if (m == "of") return outIm(Array.of.apply(x.c[0] == "c" ? re(x.c) : x.c[0] == "u" ? Array : re(x.c), a));
    if (m == "sort" || m == "toSorted") return outIm(Array.prototype[m].call(o, comparator(x.cmp)));
    if (CBM.includes(m)) {
        let f = callback(x.cb);
        if (m == "reduce" || m == "reduceRight") return outIm(Array.prototype[m].call(o, f, ...a));
        return outIm(x.cb.th[0] == "u" ? Array.prototype[m].call(o, f) : Array.prototype[m].call(o, f, re(x.cb.th)));
    }
    return outIm(Array.prototype[m].apply(o, a));
};
