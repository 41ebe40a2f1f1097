/* GlobalEnv.tla on real scripts: every test gets a new realm. */
const NAMES = ["x", "y", "z", "toString", "NaN", "Array"];
let alt = 0;
function lit(v) {
    switch (v[0]) {
    case "u": return "undefined";
    case "i": return String(v[1]);
    case "f": return "(function () { return " + v[1] + "; })";
    case "c": return "(class { static n = " + v[1] + "; })";
    }
}
function image(s, v) {
    if (v === undefined) return ["u"];
    if (typeof v == "number") return v !== v ? ["NaN"] : ["i", v];
    if (typeof v == "function") {
        if (v === s.array) return ["Array"];
        if (v === s.inh) return ["inh"];
        return Object.hasOwn(v, "n") ? ["c", v.n] : ["f", v()];
    }
    return ["?", typeof v];
}
function src(b) {
    return b.map(q => {
        switch (q[0]) {
        case "var": case "let": case "const": return q[0] + " " + q[1] + (q[2].length ? " = " + lit(q[2]) : "") + ";";
        case "class": return "class " + q[1] + " { static n = " + q[2] + "; }";
        case "fun": return "function " + q[1] + " () { return " + q[2] + "; }";
        case "set": return q[1] + " = " + lit(q[2]) + ";";
        case "get": return "H_L(" + q[1] + ");";
        case "type": return "H_T(typeof " + q[1] + ");";
        case "del": return "H_T(delete " + q[1] + ");";
        case "throw": return "throw H_M;";
        case "eval": return "eval(" + JSON.stringify(src(q[2])) + ");";
        case "ieval": return "(0, eval)(" + JSON.stringify(src(q[2])) + ");";
        }
    }).join(" ");
}
function newSUT(c) {
    let g = H_createRealm(), s = {g, log: [], array: g.Array, inh: g.Object.prototype.toString};
    let hide = (n, v) => Object.defineProperty(g, n, {value: v, configurable: true});
    hide("H_L", v => { s.log.push(image(s, v)); });
    hide("H_T", v => { s.log.push(["t", v]); });
    hide("H_M", {name: "Mine"});
    s.read = () => g.H_evalScript("[" + NAMES.map(n => "() => " + n) + "]");
    s.rd = s.read();
    return s;
}
function desc(s, n) {
    let d = Reflect.getOwnPropertyDescriptor(s.g, n);
    if (!d) return [];
    return "value" in d ? ["d", image(s, d.value), d.writable, d.enumerable, d.configurable] : ["a", d.get.id, d.set !== undefined, d.enumerable, d.configurable];
}
function fromDesc(s, d) {
    if (d[0] == "d") return {value: s.g.H_evalScript(lit(d[1])), writable: d[2], enumerable: d[3], configurable: d[4]};
    let get = () => { s.log.push(["get", d[1]]); return d[1]; };
    get.id = d[1];
    return {get, set: d[2] ? v => { s.log.push(["set", d[1], image(s, v)]); } : undefined, enumerable: d[3], configurable: d[4]};
}
function step1(s, x) {
    switch (x.n) {
    case "script": s.g.H_evalScript((x.strict ? "'use strict'; " : "") + src(x.b)); return ["ok"];
    case "define": return ["b", Reflect.defineProperty(s.g, x.name, fromDesc(s, x.d))];
    case "delete": return ["b", Reflect.deleteProperty(s.g, x.name)];
    case "set": return ["b", Reflect.set(s.g, x.name, s.g.H_evalScript(lit(x.v)))];
    case "prevent": return ["b", Reflect.preventExtensions(s.g)];
    }
}
function step(s, x) {
    let r;
    s.log = [];
    try { r = step1(s, x); } catch (e) { r = ["throw", e && e.name]; }
    let log = s.log; s.log = [];
    let rd = alt ++ % 3 ? s.rd : s.read();
    return [r, log, NAMES.map((n, i) => { let v; try { v = image(s, rd[i]()); } catch (e) { v = ["throw", e.name]; } return [v, desc(s, n)]; })];
}
