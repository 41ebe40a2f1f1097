/* Files.tla on the engine; everything happens below SCRATCH */
let L_n = 0, L_dir;
for (let i = 0; !L_dir; i ++) {
    try { mkdir(SCRATCH + "/" + i); L_dir = SCRATCH + "/" + i; } catch (e) { if (i > 100000) throw e; }
}
function newSUT(c) {
    let root = L_dir + "/" + (L_n ++);
    mkdir(root);
    let s = {root, h: [], b: [[1, 2, 3, 4, 5, 6, 7, 8], [], [255], Array(40).fill(9)].map(mkbuf)};
    if (c == 1) s.b = [mkbuf([7, 8])];
    return s;
}
function mkbuf(v) { let b = new ArrayBuffer(v.length); new Uint8Array(b).set(v); return b; }
const bytes = b => Array.from(new Uint8Array(b));
const text = t => String.fromCodePoint(...t);
const codes = s => [...s].map(c => c.codePointAt(0));
const path = (s, p) => [s.root, ...p].join("/");
const enc = e => e === "" ? [] : [e];
const thrown = e => { if (e instanceof Error) return ["throw"]; throw e; };
function list(s, d, how) {
    let got = [], extra = [];
    switch (how) {
    case 0: for (let x of d) got.push(x); if (d.next().done !== true) extra.push("next after the end"); break;
    case 1: { let x; while ((x = d.read()) !== undefined) got.push(x); if (d.read() !== undefined) extra.push("read after the end"); break; }
    case 2: { let x; while (!(x = d.next()).done) got.push(x.value); if (x.value !== undefined) extra.push("value at the end"); break; }
    case 3: { for (let x of d) { got.push(x); break; } if (!d.next().done) extra.push("next after break");
              let e = new Dir(d.H_path), x; got = []; while ((x = e.read()) !== undefined) got.push(x); e.close(); break; }
    }
    d.close();
    try { d.read(); extra.push("read after close"); } catch (e) { thrown(e); }
    if (!d.next().done) extra.push("next after close");
    let n = got.filter(x => x != "." && x != "..");
    if (got.length != n.length + 2 || !got.includes(".") || !got.includes("..")) extra.push("dots");
    let r = ["a", "b", "d"].filter(x => n.includes(x));
    if (r.length != n.length) extra.push(n.length);
    return ["l", r, ...extra];
}
function step(s, x) {
    try { return step1(s, x); } catch (e) { return thrown(e); }
}
function step1(s, x) {
    let f, P = "p" in x ? path(s, x.p) : undefined, E = "e" in x ? enc(x.e) : [];
    switch (x.n) {
    case "open": {
        let h = new File(P, x.m);
        if (x.m.startsWith("a+")) h.seek(0, File.SEEK_END);
        s.h.push(h);
        return ["h"];
    }
    case "buf": s.b[x.b - 1] = mkbuf(x.v); return ["u"];
    case "loadS": return ["s", codes(File.loadString(P, ...E))];
    case "storeS": File.storeString(P, text(x.t), ...E); return ["u"];
    case "appS": File.appendString(P, text(x.t), ...E); return ["u"];
    case "badS":
        switch (x.k) {
        case 0: File.storeString(P, Symbol()); break;
        case 1: File.appendString(P, {toString() { throw new Error("no"); }}); break;
        case 2: File.storeString(P, "x", "no-such-encoding"); break;
        case 3: File.storeString(P, "x", {toString() { throw new Error("no"); }}); break;
        case 4: File.appendString(P, {toString() { return {}; }, valueOf() { return {}; }}, "UTF-8"); break;
        case 5: File.loadString(P, "no-such-encoding"); break;
        case 6: File.storeString(Symbol(), "x"); break;
        }
        return ["u"];
    case "loadD": return ["d", bytes(File.loadData(P))];
    case "storeD": File.storeData(P, s.b[x.b - 1], ...x.a); return ["u"];
    case "appD": File.appendData(P, s.b[x.b - 1], ...x.a); return ["u"];
    case "badD": {
        let b = new ArrayBuffer(4), fn = x.k % 2 ? File.storeData : File.appendData;
        switch (x.k >> 1) {
        case 0: fn(P, {}); break;
        case 1: fn(P); break;
        case 2: H_detach(b); fn(P, b, 0, 1); break;
        case 3: fn(P, b, {valueOf() { throw new Error("no"); }}); break;
        case 4: fn(P, b, 0, Symbol()); break;
        case 5: fn(P, b, -1); break;
        case 6: H_detach(b); if (x.k % 2) encodeText("abc", "UTF-8", b, 0); else decodeText("UTF-8", b); break;
        case 7: fn(P, new Uint8Array(3)); break;
        }
        return ["u"];
    }
    case "unlink": unlink(P); return ["u"];
    case "rmdir": rmdir(P); return ["u"];
    case "mkdir": mkdir(P); return ["u"];
    case "rename": rename(P, path(s, x.q)); return ["u"];
    case "chmod": chmod(P, x.m); return ["u"];
    case "stat": {
        let t = new FileState(P);
        if (t === undefined || !("size" in t)) return ["u"];
        let k = t.format === FileState.FORMAT_REGULAR ? "f" : t.format === FileState.FORMAT_DIR ? "d" : "?";
        return ["st", k, k == "f" ? t.size : -1, t.mode];
    }
    case "real": { let r = realpath(P); return r === undefined ? ["u"] : r.startsWith(realpath(s.root)) ? ["p", r.substring(realpath(s.root).length).split("/").filter(c => c != "")] : ["?", r]; }
    case "list": { let d = new Dir(P); d.H_path = P; return list(s, d, x.how); }
    case "names": { let t = x.t.join(""); return [[...dirname(t)], [...basename(t)]]; }
    case "encode":
        if (x.b == 0) return ["d", bytes(encodeText(text(x.t), ...E))];
        { let b = s.b[x.b - 1], n = encodeText(text(x.t), E[0], b, ...x.a); return ["rd", n, bytes(b)]; }
    case "decode": return ["s", codes(decodeText(E[0], s.b[x.b - 1], ...x.a))];
    case "gc": H_gc(); return ["u"];
    }
    if (x.h > s.h.length) return ["none"];
    let h = x.h ? s.h[x.h - 1] : [{}, 3, undefined, File, File.prototype, []][s.h.length % 6], F = File.prototype;
    switch (x.n) {
    case "close": F.close.call(h); return ["u"];
    case "tell": return ["n", F.tell.call(h)];
    case "seek": f = F.seek.call(h, x.o, [File.SEEK_SET, File.SEEK_CUR, File.SEEK_END][x.w] ?? 77); return f === h ? ["u"] : ["?"];
    case "getc": { let c = F.getChar.call(h); return c === undefined || c === -1 ? ["eof"] : ["n", c]; }
    case "putc": f = F.putChar.call(h, x.c); return f === h ? ["u"] : ["?"];
    case "gets": { let t = F.getString.call(h, ...E); return t === "" || t === -1 || t === undefined ? ["eof"] : ["s", codes(t)]; }
    case "puts": f = F.putString.call(h, text(x.t), ...E); return f === h ? ["u"] : ["?"];
    case "read": { let n = F.read.call(h, s.b[x.b - 1], ...x.a); return ["rd", n, bytes(s.b[x.b - 1])]; }
    case "write": return ["n", F.write.call(h, s.b[x.b - 1], ...x.a)];
    }
}
