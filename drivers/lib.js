/* Shared part of every driver: reads JSON lines, runs each test, prints the outcome.
   A driver defines  function runTest(t)  returning a JSON value
   or  function newSUT(c) and function step(s, op). */
"use strict";
function L_err(e) {
    if (e === null || (typeof e !== "object" && typeof e !== "function"))
        return "throw " + (typeof e === "symbol" ? "symbol" : String(e));
    return "throw " + (typeof e.name === "string" ? e.name : "object");
}
function L_val(v) {   /* JSON-able image of a simple value */
    if (v === undefined) return "undefined";
    if (v === null) return "null";
    if (typeof v === "number") {
        if (v !== v) return "NaN";
        if (v === Infinity) return "Infinity";
        if (v === -Infinity) return "-Infinity";
        if (v === 0 && 1 / v < 0) return "-0";
        return v;
    }
    if (typeof v === "bigint") return v + "n";
    if (typeof v === "symbol") return "symbol";
    return v;
}
function L_try(f) {
    try { return f(); } catch (e) { return L_err(e); }
}
function L_main() {
    let data = File.loadString(H_args[0]);
    let pos = 0, n = 0;
    while (pos < data.length) {
        let e = data.indexOf("\n", pos);
        if (e < 0) e = data.length;
        let line = data.substring(pos, e);
        pos = e + 1;
        if (line.length == 0) continue;
        let t = JSON.parse(line), r;
        if (typeof runTest === "function") {
            r = runTest(t);
        } else {
            let s = newSUT(t.c);
            r = [];
            for (let i = 0; i < t.ops.length; i ++) r.push(step(s, t.ops[i]));
        }
        H_out("@@R " + n + " " + JSON.stringify(r));
        H_flush();
        n ++;
    }
}
