/* BigOps.tla and NumOps.tla on real BigInts and Numbers. */
let alt = 0;
function hexOf(m) { let s = ""; for (let i = m.length - 1; i >= 0; i --) s += m[i].toString(16).padStart(3, "0"); return s == "" ? "0" : s; }
function big(a) {
    let h = hexOf(a.m), v;
    switch (alt ++ % 4) {
    case 0: v = BigInt("0x" + h); break;
    case 1: v = Function("return 0x" + h + "n")(); break;
    case 2: v = 0n; for (let i = a.m.length - 1; i >= 0; i --) v = (v << 12n) | BigInt(a.m[i]); break;
    default: v = BigInt(BigInt("0x" + h).toString()); break;
    }
    return a.n ? -v : v;
}
function limbs(h) { let m = []; for (let e = h.length; e > 0; e -= 3) m.push(parseInt(h.substring(Math.max(0, e - 3), e), 16)); while (m.length && m[m.length - 1] == 0) m.pop(); return m; }
function bigIm(v) {
    let t = v.toString(16), n = t[0] == "-";
    if (n) t = t.slice(1);
    if (!/^(0|[1-9a-f][0-9a-f]*)$/.test(t) || n && t == "0") return ["bad text", t];
    let r = {n, m: limbs(t)};
    if (v !== (n ? -BigInt("0x" + t) : BigInt("0x" + t))) return ["not equal to itself", t];
    return ["n", r];
}
function num(v) {
    switch (v[0]) {
    case "x": return v[1] == "-0" ? -0 : Number(v[1]);
    case "z": case "h": {
        let m = v[0] == "z" ? v[1].m : v[2], n = v[0] == "z" ? v[1].n : v[1], r = 0;
        for (let i = m.length - 1; i >= 0; i --) r = r * 4096 + m[i];
        if (v[0] == "h") r += 0.5;
        return n ? -r : r;
    }
    }
}
function numIm(v) {
    if (typeof v != "number") return ["?", typeof v];
    if (v !== v || v === Infinity || v === -Infinity || Object.is(v, -0)) return ["x", Object.is(v, -0) ? "-0" : String(v)];
    let n = v < 0, a = n ? -v : v;
    if (a % 1 != 0) return a % 1 == 0.5 ? ["h", n, lim(a - 0.5)] : ["fraction"];
    return ["z", {n, m: lim(a)}];
}
function lim(a) { let m = []; while (a > 0) { let d = a % 4096; m.push(d); a = (a - d) / 4096; } return m; }
const sloppy = s => Function("return (" + s + ")")();
/* each operator in several forms: on variables, in a compiled expression, compound, on wrappers */
const OPS = {add: "+", sub: "-", mul: "*", div: "/", mod: "%", pow: "**", and: "&", or: "|", xor: "^", shl: "<<", shr: ">>", ushr: ">>>"};
const FN = {};
for (let k in OPS) FN[k] = [sloppy("(a, b) => a " + OPS[k] + " b"), sloppy("(a, b) => { a " + OPS[k] + "= b; return a; }"),
    sloppy("(a, b) => { let o = {p: a}; o.p " + OPS[k] + "= b; return o.p; }"), sloppy("(a, b) => Object(a) " + OPS[k] + " {valueOf: () => b}")];
const form = (k, a, b) => FN[k][alt ++ % 4](a, b);
const six = (a, b) => alt ++ % 2 ? [a < b, a > b, a <= b, a >= b, a == b, a != b] : [b > a, b < a, b >= a, b <= a, b == a, b != a];
function bigOp(x) {
    let a = x.a && big(x.a), b = x.b && big(x.b), k = x.k;
    switch (x.n) {
    case "divmod": return bigIm(a / b * b + a % b);
    case "pow": return bigIm(form("pow", a, BigInt(k)));
    case "shl": case "shr": return bigIm(form(x.n, a, BigInt(k)));
    case "neg": return bigIm(-a);
    case "not": return bigIm(~a);
    case "inc": { let c = a; return bigIm(alt ++ % 2 ? ++ c : (c ++, c)); }
    case "dec": { let c = a; return bigIm(alt ++ % 2 ? -- c : (c --, c)); }
    case "cmp": { let r = six(a, b); if ((a === b) !== r[4] || Object.is(a, b) !== r[4] || new Map([[a, 1]]).has(b) !== r[4] || [a].includes(b) !== r[4]) return ["equality"]; return ["l", r]; }
    case "cmpn": return ["l", six(a, num(x.v))];
    case "asInt": return bigIm(BigInt.asIntN(k, a));
    case "asUint": return bigIm(BigInt.asUintN(k, a));
    case "text": { let t = a.toString(k); if (k == 10 && (String(a) !== t || `${a}` !== t || "" + a !== t || a.toString() !== t)) return ["text"]; return ["s", t]; }
    case "parse": return bigIm(x.lit ? sloppy(x.text + "n") : BigInt(x.text));
    case "tonum": return ["n", numIm(Number(a))[1]];
    case "ofnum": return bigIm(BigInt(num(x.v)));
    case "mix": return bigIm(form(x.op, ...(alt ++ % 2 ? [a, 1] : [1, a])));
    case "bool": return ["b", a ? true : false];
    }
    return bigIm(form(x.n, a, b));
}
function numOp(x) {
    let a = x.a && num(x.a), b = x.b && num(x.b), k = x.k, c;
    switch (x.n) {
    case "not": return numIm(alt ++ % 2 ? ~a : ~{valueOf: () => a});
    case "neg": return numIm(-a);
    case "plus": return numIm(+a);
    case "inc": c = a; return numIm(alt ++ % 2 ? ++ c : (c ++, c));
    case "dec": c = a; return numIm(alt ++ % 2 ? -- c : (c --, c));
    case "cmp": return ["l", [a < b, a > b, a <= b, a >= b, a == b, a === b, Object.is(a, b)]];
    case "trunc": return numIm(Math.trunc(a));
    case "clz": return numIm(Math.clz32(a));
    case "imul": return numIm(Math.imul(a, b));
    case "tolen": { let o = {length: a}; Array.prototype.push.call(o); return numIm(o.length); }
    case "toidx": try { BigInt.asUintN(a, 0n); return ["b", true]; } catch (e) { return e instanceof RangeError ? ["b", false] : ["?"]; }
    case "at": { let r = "0123456789".at(a); return r === undefined ? ["none"] : numIm(+r); }
    case "isint": return ["l", [Number.isInteger(a), Number.isSafeInteger(a), Number.isFinite(a), Number.isNaN(a)]];
    case "text": { let t = a.toString(k); if (k == 10 && (String(a) !== t || `${a}` !== t || "" + a !== t)) return ["text"]; return ["s", t]; }
    case "parseInt": return numIm(k == 0 && alt ++ % 2 ? parseInt(x.text) : parseInt(x.text, k));
    case "tonum": return numIm(x.lit ? sloppy(x.text) : alt ++ % 2 ? Number(x.text) : +x.text);
    }
    return numIm(form(x.n, a, b));
}
function runTest(t) {
    let r = [];
    alt = t.c.seed;
    for (let x of t.ops) {
        try { r.push((t.c.big ? bigOp : numOp)(x)); }
        catch (e) { r.push(["throw", e && e.name || String(e)]); }
    }
    return r;
}
