/* c: {kind: "map"|"set"|"map2"...}: keys are small integers standing for key values. */
let K = [];
function keyOf(id, alt) {
    /* ids 1..12 are special values with alternative spellings */
    switch (id) {
    case 1: return alt ? -0 : 0;
    case 2: return alt ? 0 / 0 : NaN;
    case 3: return alt ? ["a", "b"].join("") : "ab";
    case 4: return undefined;
    case 5: return null;
    case 6: return alt ? "" + 0 : "0";
    case 7: return alt ? BigInt("12345678901234567890") : 12345678901234567890n;
    case 8: return true;
    case 9: return alt ? 0.5 + 0.5 : 1;
    case 10: return alt ? 1n : BigInt(1);
    case 11: return alt ? Symbol.for("q") : Symbol.for("q");
    case 12: return alt ? "x".repeat(3) : "xxx";
    default:
        if (!K[id]) K[id] = (id % 3 == 0) ? {id} : (id % 3 == 1) ? "key" + id : id * 1000003;
        return (id % 3 == 1 && alt) ? "k" + "ey" + String(id) : K[id];
    }
}
function idOf(v) {
    if (v === 0) return 1 / v > 0 ? 1 : "-0";
    if (v !== v) return 2;
    for (let i = 3; i <= 80; i ++) if (keyOf(i, false) === v) return i;
    return "unknown key";
}
function newSUT(c) {
    let s = {kind: c.kind, it: [], alt: 0};
    s.m = c.kind == "set" ? new Set() : new Map();
    return s;
}
function step(s, o) {
    let m = s.m, isSet = s.kind == "set";
    let alt = (s.alt = (s.alt * 5 + 3) % 16) > 7;
    let pair = isSet ? (x => x) : null;
    function put(k, v) { return isSet ? m.add(keyOf(k, alt)) : m.set(keyOf(k, alt), v); }
    switch (o.n) {
    case "set": return put(o.k, o.v) === m ? "self" : "other";
    case "del": return m.delete(keyOf(o.k, alt));
    case "has": return m.has(keyOf(o.k, alt));
    case "get": return L_val(m.get(keyOf(o.k, alt)));
    case "clear": return L_val(m.clear());
    case "size": return m.size;
    case "all": return isSet ? [...m].map(k => idOf(k)) : [...m].map(e => [idOf(e[0]), e[1]]);
    case "iter":
        s.it[o.i] = (s.kind == "set") ? [m.values(), m.keys(), m[Symbol.iterator]()][o.i % 3]
                                      : (s.kind == "keys" ? m.keys() : s.kind == "values" ? m.values()
                                         : o.i % 2 ? m.entries() : m[Symbol.iterator]());
        return "iter";
    case "next": {
        let it = s.it[o.i];
        if (!it) return "none";
        let r = it.next();
        if (r.done) return r.value === undefined ? "done" : "done with a value";
        if (isSet || s.kind == "keys") return idOf(r.value);
        if (s.kind == "values") return r.value;
        return [idOf(r.value[0]), r.value[1]];
    }
    case "each": {
        let n = 0, log = [];
        m.forEach(function (v, k, mm) {
            n ++;
            if (mm !== m) log.push("bad map");
            if (isSet && !Object.is(v, k)) log.push("bad set args");
            log.push(isSet ? idOf(k) : [idOf(k), v]);
            if (n == o.at) {
                if (o.m[0] == "set") put(o.m[1], o.m[2]);
                else if (o.m[0] == "del") m.delete(keyOf(o.m[1], alt));
                else if (o.m[0] == "clear") m.clear();
            }
        });
        return log;
    }
    }
}
