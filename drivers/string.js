/* StrOps.tla on real strings. */
let alt = 0;
function mk(u) {                    /* a string of the given code units, built in different ways */
    alt ++;
    switch (alt % 6) {
    case 0: return String.fromCharCode(...u);
    case 1: { let s = ""; for (let c of u) s += String.fromCharCode(c); return s; }
    case 2: return JSON.parse('"' + u.map(esc).join("") + '"');
    case 3: return Function('return "' + u.map(esc).join("") + '"')();
    case 4: { let m = u.length >> 1; return String.fromCharCode(...u.slice(0, m)) + String.fromCharCode(...u.slice(m)); }
    default: return ("zz" + u.map(c => String.fromCharCode(c)).join("") + "y").slice(2, -1);
    }
}
function esc(c) { return "\\u" + c.toString(16).padStart(4, "0"); }
function units(s) {
    if (typeof s != "string") return ["?", typeof s];
    let r = [], bad = false;
    for (let i = 0; i < s.length; i ++) { r.push(s.charCodeAt(i)); if (s[i].charCodeAt(0) !== r[i] || s[i].length != 1) bad = true; }
    if (bad || s[s.length] !== undefined || s.charCodeAt(s.length) === s.charCodeAt(s.length)) return ["inconsistent"];
    return r;
}
const S = s => ["s", units(s)];
function arg(v) { return v[0] == "i" ? v[1] : v[0] == "u" ? undefined : Number(v[1]); }
function num(n) { return n !== n ? ["x", "NaN"] : ["i", n]; }
function obs(v) {
    switch (typeof v) {
    case "string": return S(v);
    case "number": return num(v);
    case "boolean": return ["b", v];
    case "undefined": return ["u"];
    }
    return Array.isArray(v) ? ["l", v.map(y => typeof y == "string" ? units(y) : obs(y))] : ["?"];
}
const NAMES = {lower: "toLowerCase", upper: "toUpperCase"};
const MAKE = ["lit", "plus", "concat", "tmpl", "join", "concat3", "slice", "substring", "substr", "at", "charAt", "padStart", "padEnd", "repeat", "replace",
              "replaceAll", "trim", "trimStart", "trimEnd", "fromCodePoint", "fromCharCode", "toWellFormed", "lower", "upper"];
function newSUT(c) { alt = c.length; return {r: c.map(mk), o: {__proto__: null}, m: new Map(), k: 0}; }
function run(st, x) {
    let get = i => st.r[(i - 1) % st.r.length];
    let s = x.s ? get(x.s) : "", t = x.t ? get(x.t) : undefined, v = x.v ? get(x.v) : undefined, a = (x.a || []).map(arg);
    switch (x.n) {
    case "lit": return mk(x.u);
    case "plus": if (alt ++ % 2) { let q = s; q += t; return q; } return s + t;
    case "tmpl": return `${s}${t}`;
    case "join": return [s, t].join("");
    case "concat": return s.concat(t);
    case "concat3": return alt ++ % 2 ? s.concat(t, v) : s + (t + v);
    case "index": { let k = Math.trunc(a[0]); return Number.isFinite(k) ? s[k] : undefined; }
    case "length": return s.length;
    case "split": return "t" in x ? s.split(t, ...a) : s.split(undefined, ...a);
    case "replace": case "replaceAll":
        return s[x.n](t, x.fn ? (m, p, w) => "[" + m + p + (w === s ? "]" : "!") : v);
    case "padStart": case "padEnd": return "t" in x ? s[x.n](a[0], t) : s[x.n](...a);
    case "fromCodePoint": case "fromCharCode": return String[x.n](...x.u);
    case "iter": return alt ++ % 2 ? [...s] : Array.from(s);
    case "cmp": return [s < t, t < s, s <= t, s >= t, s == t, s === t, Object.is(s, t)];
    case "own": return t in Object(s) && Object.hasOwn(s, t);
    case "setkey": st.o[s] = x.k; st.m.set(s, x.k); return undefined;
    case "getkey": return st.o[s] === st.m.get(s) ? st.o[s] : "different";
    case "same": return s;
    case "slice": case "substring": case "substr": case "at": case "charAt": case "charCodeAt": case "codePointAt": case "repeat":
    case "trim": case "trimStart": case "trimEnd": case "isWellFormed": case "toWellFormed":
        return s[x.n](...a);
    case "lower": case "upper": { if (/^[\0-\x7f]*$/.test(s)) return s[NAMES[x.n]](); return s; }
    }
    return s[x.n](t, ...a);
}
function step(st, x) {
    let r;
    try { r = run(st, x); } catch (e) { return ["throw", e instanceof RangeError ? "RangeError" : e instanceof TypeError ? "TypeError" : String(e)]; }
    if (typeof r == "string" && MAKE.includes(x.n) && r.length <= 120) st.r.push(r);
    return obs(r);
}
