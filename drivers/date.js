/* DateOps.tla on real Dates. */
let alt = 0, DAY = 86400000;
function tv(v) {
    if (typeof v != "number") return ["?", typeof v];
    if (v !== v) return ["nan"];
    if (Object.is(v, -0)) return ["minus zero"];
    let d = Math.floor(v / DAY);
    return ["t", d, v - d * DAY];
}
function num(t) { return t[0] == "nan" ? NaN : t[1] * DAY + t[2]; }
function value(s, a) {
    switch (a[0]) {
    case "i": return a[1];
    case "x": return Number(a[1]);
    case "u": return undefined;
    case "T": return a[1] * DAY + a[2];
    case "s": return a[1];
    case "d": return {valueOf() { s.D[a[2] - 1].setTime(num(a[3])); return value(s, a[1]); }};
    }
}
function txt(v) { return typeof v == "string" ? ["s", v.replace(/ \(.*\)$/, "")] : v === null ? ["null"] : ["?", typeof v]; }
function shown(d) {
    let t = tv(d.getTime());
    let f = ["FullYear", "Month", "Date", "Hours", "Minutes", "Seconds", "Milliseconds", "Day"];
    let l = [...f.map(k => d["getUTC" + k]()), ...f.map(k => d["get" + k]()), d.getTimezoneOffset()];
    if (!Object.is(d.valueOf(), d.getTime()) || !Object.is(+d, d.getTime())) return ["valueOf"];
    if (l.some(v => typeof v != "number" || Object.is(v, -0))) return ["field"];
    if (t[0] == "nan") return l.every(v => v !== v) ? [] : ["not NaN"];
    if (t[0] != "t") return t;
    return [t[1], t[2], ...l];
}
function newSUT(c) { let D = []; for (let i = 0; i < c.n; i ++) D.push(new Date(0)); return {D, off: c.off}; }
function step1(s, x) {
    let d = s.D[x.i - 1], a = x.a.map(v => value(s, v)), r;
    switch (x.n) {
    case "new": r = s.D[x.i - 1] = alt ++ % 2 ? new Date(...a) : Reflect.construct(Date, a); return tv(r.getTime());
    case "num": s.D[x.i - 1] = new Date(a[0]); return ["u"];
    case "copy": s.D[x.i - 1] = new Date(s.D[x.j - 1]); if (x.i != x.j && s.D[x.i - 1] === s.D[x.j - 1]) return ["same"]; return ["u"];
    case "utc": return tv(Date.UTC(...a));
    case "setTime": return tv(d.setTime(...a));
    case "set": return tv(d["set" + (x.utc ? "UTC" : "") + x.k](...a));
    case "text": if (x.k == "toString") switch (alt ++ % 3) { case 0: return txt(String(d)); case 1: return txt(d + ""); case 2: return txt(d[Symbol.toPrimitive]("default")); }
        if (x.k == "toJSON" && alt ++ % 2) return txt(JSON.parse(JSON.stringify(d)));
        return txt(d[x.k]());
    case "round": { let t; try { t = d[x.k](); } catch (e) { if (!(e instanceof RangeError)) throw e; t = "x"; } return tv(alt ++ % 2 ? Date.parse(t) : new Date(t).getTime()); }
    case "cmp": { let e = s.D[x.j - 1], r = d - e; if ((d < e) !== (r < 0) || (d >= e) !== (r >= 0)) return ["order"]; return tv(r); }
    case "parse": { let t = String.fromCharCode(...x.t); return tv(alt ++ % 2 ? Date.parse(t) : new Date(t).getTime()); }
    }
}
function step(s, x) {
    let r;
    try { r = step1(s, x); } catch (e) { r = ["throw", e instanceof Error ? e.name : String(e)]; }
    return [r, x.n == "utc" || x.n == "cmp" || x.n == "parse" ? [] : shown(s.D[x.i - 1])];
}
