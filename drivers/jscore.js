/* Runs a program as a script of its own and reports what it observed.
   show() prints values exactly as Show in spec/JSCore.tla. */
function J_flags(d) {
    if (d.get || d.set) {
        if (d.enumerable && d.configurable) return "";
        return "~" + (d.enumerable ? "e" : "") + (d.configurable ? "c" : "");
    }
    if (d.writable && d.enumerable && d.configurable) return "";
    return "~" + (d.writable ? "w" : "") + (d.enumerable ? "e" : "") + (d.configurable ? "c" : "");
}
const J_names = new Map();
for (const n of ["iterator", "asyncIterator", "hasInstance", "toPrimitive", "toStringTag", "species", "unscopables"])
    J_names.set(Symbol[n], n);
const J_sA = Symbol("sA"), J_sB = Symbol("sB");
J_names.set(J_sA, "sA");
J_names.set(J_sB, "sB");
const J_gopd = Object.getOwnPropertyDescriptor, J_keys = Reflect.ownKeys, J_isArray = Array.isArray,
      J_errP = Error.prototype, J_isErr = (v) => { for (let p = v; p; p = Object.getPrototypeOf(p)) if (p === J_errP) return true; return false; };
const J_cache = new WeakMap();
function J_show(v, dep) {
    switch (typeof v) {
    case "string": return "'" + v + "'";
    case "symbol": return "sym:" + (J_names.has(v) ? J_names.get(v) : v.description);
    case "function": return "fn";
    case "object": break;
    default: return String(v);
    }
    if (v === null) return "null";
    if (v === globalThis) return "global";
    if (J_isErr(v)) return "!" + v.constructor.name;
    let s = "";
    if (J_isArray(v)) {
        if (dep == 0) return "[.]";
        for (let i = 0; i < v.length; i ++) {
            let d = J_gopd(v, i);
            s += (i ? "," : "") + (d === undefined ? "_" : (d.get || d.set) ? "acc" : J_show(d.value, dep - 1));
        }
        return "[" + s + "]";
    }
    if (dep == 0) return "{.}";
    let first = true;
    for (let k of J_keys(v)) {
        let d = J_gopd(v, k);
        s += (first ? "" : ",") + (typeof k === "symbol" ? "@@" + (J_names.has(k) ? J_names.get(k) : k.description) : k) + ":"
             + ((d.get || d.set || !("value" in d)) ? "acc" : J_show(d.value, dep - 1)) + J_flags(d);
        first = false;
    }
    return "{" + s + "}";
}
let J_log;
/* programs marked with a comment M change intrinsics: put them back */
const J_intr = [Promise, Promise.prototype, Array.prototype, Object.getPrototypeOf([][Symbol.iterator]()), Object.prototype,
    Function.prototype, String.prototype, Number.prototype, Boolean.prototype, Map.prototype, Set.prototype, WeakMap.prototype, WeakSet.prototype,
    Symbol.prototype, Object.getPrototypeOf(function* () {}).prototype, Object.getPrototypeOf(async function* () {}).prototype,
    Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()))];
const J_saved = J_intr.map((o) => Reflect.ownKeys(o).map((k) => [k, J_gopd(o, k)]));
const J_del = Reflect.deleteProperty, J_def = Reflect.defineProperty;
function J_restore() {
    for (let i = 0; i < J_intr.length; i ++) {
        let o = J_intr[i], l = J_saved[i];
        for (let j = 0; j < l.length; j ++) J_def(o, l[j][0], l[j][1]);
        let ks = J_keys(o);
        for (let j = 0; j < ks.length; j ++) {
            let known = false;
            for (let n = 0; n < l.length; n ++) if (l[n][0] === ks[j]) known = true;
            if (!known) J_del(o, ks[j]);
        }
    }
}
globalThis.log = function () {
    let s = "";
    for (let i = 0; i < arguments.length; i ++) s += (i ? " " : "") + J_show(arguments[i], 2);
    J_log.push(s);
    return arguments[arguments.length - 1];
};
globalThis.solve = () => { H_solveJobs(); };
globalThis.hide = function (o, k) { if (J_gopd(o, k)) Object.defineProperty(o, k, { enumerable: false }); return o; };
globalThis.lock = function (o, k) {
    let d = J_gopd(o, k);
    if (d) Object.defineProperty(o, k, "value" in d ? { writable: false, configurable: false } : { configurable: false });
    return o;
};
globalThis.ro = function (o, k) { let d = J_gopd(o, k); if (d && "value" in d) Object.defineProperty(o, k, { writable: false }); return o; };
globalThis.sA = J_sA;
globalThis.sB = J_sB;
const J_glob = new Set(J_keys(globalThis));
function runTest(t) {
    J_log = [];
    let l = J_log;
    try {
        H_evalScript(t.s);
    } catch (e) {
        l.push("uncaught " + J_show(e, 2));
    }
    H_solveJobs();
    J_log = [];
    if (t.m) J_restore();
    /* globals created by assigning to an undeclared name */
    for (let k of J_keys(globalThis)) if (!J_glob.has(k)) J_del(globalThis, k);
    return l;
}
