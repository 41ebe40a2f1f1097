/* Regex.tla on the engine */
function newSUT(c) { return {c, re: []}; }
const str = u => String.fromCharCode(...u);
const un = s => Array.from({length: s.length}, (x, i) => s.charCodeAt(i));
const val = v => v === undefined ? ["u"] : ["s", un(v)];
const hex = (n, w) => n.toString(16).padStart(w, "0");
/* one pattern character as source text; k varies the spelling */
function chr(s, c, inset) {
    let k = s.k ++ + s.c, uni = s.u;
    if (c == 10 && k % 2) return "\\n";
    if (c == 13 && k % 2) return "\\r";
    if (c == 9 && k % 2) return "\\t";
    if (c == 10 || c == 13 || c == 0x2028) return k % 3 == 0 ? "\\u" + hex(c, 4) : c < 256 ? "\\x" + hex(c, 2) : "\\u" + hex(c, 4);
    if (c > 0xffff) return k % 3 == 0 ? "\\u{" + hex(c, 1 + k % 2 * 7) + "}" : k % 3 == 1 ? "\\u" + hex(0xd800 + ((c - 0x10000) >> 10), 4) + "\\u" + hex(0xdc00 + ((c - 0x10000) & 1023), 4) : String.fromCodePoint(c);
    let t = String.fromCharCode(c);
    if ("^$\\.*+?()[]{}|/".includes(t)) return k % 4 ? "\\" + t : "\\x" + hex(c, 2);
    if (inset && t == "-") return uni && k % 2 ? "\\-" : "\\x2d";
    if (k % 7 == 3) return c < 256 ? "\\x" + hex(c, 2) : "\\u" + hex(c, 4);
    if (k % 7 == 5 && uni) return "\\u{" + hex(c, 2) + "}";
    return t;
}
const simple = n => n[0] == "c" || n[0] == "any" || n[0] == "esc" || n[0] == "set" || n[0] == "grp" || n[0] == "ncg";
function src(s, n) {
    switch (n[0]) {
    case "c": return chr(s, n[1], false);
    case "any": return ".";
    case "esc": return "\\" + n[1];
    case "set": return "[" + (n[1] ? "^" : "") + n[2].map(i => i[0] == "c" ? chr(s, i[1], true) : i[0] == "r" ? chr(s, i[1], true) + "-" + chr(s, i[2], true) : "\\" + i[1]).join("") + "]";
    case "seq": return n[1].length == 0 ? "(?:)" : n[1].map(x => x[0] == "alt" ? "(?:" + src(s, x) + ")" : src(s, x)).join("");
    case "alt": return n[1].map(x => x[0] == "alt" ? "(?:" + src(s, x) + ")" : src(s, x)).join("|");
    case "grp": return "(" + (n[3] ? "?<" + n[3] + ">" : "") + src(s, n[2]) + ")";
    case "ncg": return "(?:" + src(s, n[1]) + ")";
    case "q": {
        let a = simple(n[1]) ? src(s, n[1]) : "(?:" + src(s, n[1]) + ")", [lo, hi] = [n[2], n[3]];
        let q = lo == 0 && hi < 0 ? "*" : lo == 1 && hi < 0 ? "+" : lo == 0 && hi == 1 ? "?" : hi < 0 ? "{" + lo + ",}" : lo == hi ? "{" + lo + "}" : "{" + lo + "," + hi + "}";
        return a + q + (n[4] ? "" : "?");
    }
    case "bol": return "^";
    case "eol": return "$";
    case "wb": return "\\b";
    case "nwb": return "\\B";
    case "look": return "(?" + (n[1] == 1 ? "" : "<") + (n[2] ? "!" : "=") + src(s, n[3]) + ")";
    case "ref": return n[2] ? "\\k<" + n[2] + ">" : "(?:\\" + n[1] + ")";
    }
}
function groups(g, names) {
    if (g === undefined) return ["u"];
    if (Object.getPrototypeOf(g) !== null) return ["proto"];
    return ["g", Object.keys(g).map(k => [un(k), val(g[k])])];
}
function res(m, s) {
    if (m === null) return ["null"];
    if (m.input !== s || !Array.isArray(m)) return ["?"];
    let keys = Array.from(m, (x, i) => "" + i).concat(["index", "input", "groups"], m.indices !== undefined ? ["indices"] : []);
    if (Object.keys(m).join() !== keys.join()) return ["keys", Object.keys(m)];
    let ind = ["u"];
    if (m.indices !== undefined) {
        let g = m.indices.groups;
        ind = ["i", Array.from(m.indices, p => p ?? []), g === undefined ? [] : Object.keys(g).map(k => g[k] ?? [])];
    }
    return ["m", m.index, Array.from(m, val), groups(m.groups), ind];
}
function make(s, x) {
    s.k = 0;
    s.u = x.f.includes("u");
    let t = src(s, x.p), f = x.f.join(""), r;
    switch ((s.c + s.re.length) % 4) {
    case 0: r = new RegExp(t, f); break;
    case 1: r = (0, eval)("/" + (t || "(?:)") + "/" + f); break;
    case 2: r = new RegExp(new RegExp(t, f).source, f); break;
    case 3: r = RegExp(new RegExp(t, s.u ? "u" : "gi"), f); break;
    }
    s.t = t;
    return r;
}
function step(s, x) {
    if (x.n == "make") {
        s.re.push(make(s, x));
        return ["u"];
    }
    let r = s.re[x.r - 1], t = str(x.s);
    if (r === undefined) return ["none"];
    try {
        switch (x.n) {
        case "set": r.lastIndex = x.v; return ["u"];
        case "exec": return [res(r.exec(t), t), r.lastIndex];
        case "test": return [r.test(t), r.lastIndex];
        case "search": return [t.search(r), r.lastIndex];
        case "match": { let m = t.match(r); return [r.global ? (m === null ? ["null"] : ["l", m.map(un)]) : res(m, t), r.lastIndex]; }
        case "matchAll": { let l = []; for (let m of t.matchAll(r)) l.push(res(m, t)); return [l, r.lastIndex]; }
        case "replace": { let v = x.all ? t.replaceAll(r, str(x.t)) : t.replace(r, str(x.t)); return [["s", un(v)], r.lastIndex]; }
        case "replaceFn": {
            let log = [], v = t.replace(r, (...a) => {
                let g = ["u"];
                if (typeof a[a.length - 1] == "object") g = groups(a.pop());
                if (a.pop() !== t) g = ["input"];
                let i = a.pop();
                log.push([a.map(val), i, g, r.lastIndex]);
                if (x.touch) r.lastIndex = 1;
                return "[" + (a[a.length - 1] ?? "") + "]";
            });
            return [["s", un(v)], r.lastIndex, log];
        }
        case "split": { let l = x.lim == 1000 ? t.split(r) : t.split(r, x.lim); return [l.map(val), r.lastIndex]; }
        }
    } catch (e) { return [[e.name], r.lastIndex]; }
}
