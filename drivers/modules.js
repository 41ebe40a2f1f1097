/* Modules.tla on module/option.js, json-pointer.js, json-manager.js and json-schema.js. */
let M = {}, runNo = 0;
mkdir(SCRATCH, 0o755);
for (let m of ["option", "json-pointer", "json-manager", "json-schema"]) import(MODDIR + "/" + m + ".js").then(ns => Object.assign(M, ns), e => H_out("@@import " + m + " " + e));
H_solveJobs();
function str(u) { return String.fromCodePoint(...u); }
function units(s) { return [...s].map(c => c.codePointAt(0)); }
function val(v) {
    switch (v[0]) {
    case "z": return null;
    case "b": return v[1];
    case "h": return v[1] / 2;
    case "s": return str(v[1]);
    case "a": return v[1].map(val);
    case "o": { let o = {}; for (let [k, x] of v[1]) Object.defineProperty(o, str(k), {value: val(x), writable: true, enumerable: true, configurable: true}); return o; }
    }
}
function image(v) {
    if (v === null) return ["z"];
    switch (typeof v) {
    case "boolean": return ["b", v];
    case "number": return ["h", v * 2];
    case "string": return ["s", units(v)];
    case "object": return Array.isArray(v) ? ["a", v.map(image)] : ["o", Object.keys(v).map(k => [units(k), image(v[k])])];
    }
    return ["?", typeof v];
}
function pat(p) { return "^" + p.map(e => "[" + e.c.map(c => c == 93 || c == 92 || c == 94 || c == 45 ? "\\" + String.fromCodePoint(c) : String.fromCodePoint(c)).join("") + "]" + (e.st ? "*" : "")).join("") + "$"; }
function obj(l, f) { let o = {}; for (let [k, x] of l) Object.defineProperty(o, str(k), {value: f(x), writable: true, enumerable: true, configurable: true}); return o; }
function schema(S) {
    if (S[0] == "bool") return S[1];
    let o = {};
    for (let [k, x] of S[1]) switch (k) {
    case "type": o.type = x.length == 1 ? x[0] : x; break;
    case "enum": o.enum = x.map(val); break;
    case "const": o.const = val(x); break;
    case "allOf": case "anyOf": case "oneOf": case "prefixItems": o[k] = x.map(schema); break;
    case "not": case "if": case "then": case "else": case "items": case "unevaluatedItems": case "contains": case "additionalProperties": case "unevaluatedProperties": case "propertyNames": o[k] = schema(x); break;
    case "multipleOf": case "maximum": case "exclusiveMaximum": case "minimum": case "exclusiveMinimum": o[k] = x / 2; break;
    case "pattern": o[k] = pat(x); break;
    case "properties": case "dependentSchemas": o[k] = obj(x, schema); break;
    case "patternProperties": o[k] = {}; for (let [p, s] of x) o[k][pat(p)] = schema(s); break;
    case "required": o[k] = x.map(str); break;
    case "dependentRequired": o[k] = obj(x, l => l.map(str)); break;
    default: o[k] = x;
    }
    return o;
}
function optval(v) { return v[0] == "u" ? undefined : v[0] == "n" ? v[1] / 10 : v[1]; }
function optimage(v) { return v === undefined ? ["u"] : typeof v == "boolean" ? ["b", v] : typeof v == "number" ? ["n", Math.round(v * 10)] : typeof v == "string" ? ["s", v] : ["?", typeof v]; }
function newSUT(c) { M.JSONManager.dirs.clear(); runNo ++; return {root: SCRATCH + "/" + runNo, p: null}; }
function found(v) { return v === undefined ? ["none"] : ["found", image(v)]; }
let alt = 0;
function step1(s, x) {
    alt ++;
    switch (x.n) {
    case "table":
        s.p = new M.OptionParser(x.t.map(d => {
            let o = {};
            if (d.name) o.name = d.name;
            if (d.abbr) o.abbr = d.abbr;
            if (d.arg[0] == "list") o.argument = d.arg[1];
            else if (d.arg[0] == "map") { o.argument = {}; for (let [k, v] of d.arg[1]) o.argument[k] = v / 10; }
            else if (d.arg[0] != "none") o.argument = d.arg[0];
            if (d.def[0] != "u") o.default = optval(d.def);
            return o;
        }));
        return ["u"];
    case "parse": {
        let calls = [], r;
        try { r = String(s.p.parse(["program", ...x.w], (n, v) => { calls.push([n === undefined ? "" : n, optimage(v)]); return calls.length != x.stop; })); }
        catch (e) { r = e.name; }
        return [calls, r];
    }
    case "ptr": {
        let t = "#" + str(x.p), d = val(x.doc), f = x.throw ? "resolveThrow" : "resolve";
        return found(alt % 2 ? M.JSONPointer[f](t, d) : new M.JSONPointer(t)[f](d));
    }
    case "dir": M.JSONManager.addDirectory(s.root + x.d); return ["u"];
    case "file": if (!FileState(s.root + x.d)) mkdir(s.root + x.d, 0o755); File.storeString(s.root + x.d + "/" + x.name, JSON.stringify(val(x.doc))); return ["u"];
    case "fptr": { let t = x.name + (x.p.length || alt % 2 ? "#" + str(x.p) : ""), f = x.throw ? "resolveThrow" : "resolve"; return found(M.JSONPointer[f](t, {})); }
    case "schema": {
        let sc = new M.JSONSchema(schema(x.s)), r = [];
        for (let v of x.v) {
            let j = val(v), ok = sc.validate(j), th = false;
            try { sc.validateThrow(j); } catch (e) { th = e instanceof M.ValidateError; }
            if (ok === th) ok = ["validate and validateThrow disagree"];
            if (ok === true ? sc.error !== undefined : false) ok = ["error left"];
            r.push(ok);
        }
        return r;
    }
    }
}
function step(s, x) { try { return step1(s, x); } catch (e) { return [e.name]; } }
