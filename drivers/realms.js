/* Realms.tla: which realm what comes from */
const CTORS = ["Object", "Array", "Function", "Error", "TypeError", "RangeError", "SyntaxError", "ReferenceError", "URIError", "EvalError", "AggregateError", "Map", "Set", "WeakMap", "WeakSet", "WeakRef", "FinalizationRegistry",
    "Promise", "Date", "RegExp", "Boolean", "Number", "String", "Symbol", "BigInt", "ArrayBuffer", "SharedArrayBuffer", "Uint8Array", "Float64Array", "DataView"];
const HIDDEN = {
    AsyncFunction: "Reflect.getPrototypeOf(async function () {})", GeneratorFunction: "Reflect.getPrototypeOf(function* () {})", AsyncGeneratorFunction: "Reflect.getPrototypeOf(async function* () {})",
    Generator: "Reflect.getPrototypeOf(function* () {}.prototype)", AsyncGenerator: "Reflect.getPrototypeOf(async function* () {}.prototype)",
    ArrayIterator: "Reflect.getPrototypeOf([].values())", MapIterator: "Reflect.getPrototypeOf(new Map().values())", SetIterator: "Reflect.getPrototypeOf(new Set().values())",
    StringIterator: "Reflect.getPrototypeOf(''[Symbol.iterator]())", RegExpStringIterator: "Reflect.getPrototypeOf(/a/g[Symbol.matchAll]('a'))",
};
const SELF = globalThis;
const LANG = {
    arr: "return [];", obj: "return {};", fun: "return function () {};", arrow: "return () => 1;", re: "return /a/;", cls: "return class {};", clsproto: "return (class {}).prototype;",
    args: "return arguments;", afun: "return async function () {};", gfun: "return function* () {};", agfun: "return async function* () {};", gproto: "return (function* () {}).prototype;",
    agproto: "return (async function* () {}).prototype;", rest: "return ((...a) => a)(1);", restobj: "let { x, ...r } = { y: 1 }; return r;", spread: "return [...'a'];", tplobj: "return (t => t)`a`;",
    acall: "return (async () => 1)();", method: "return { m() {} }.m;", getter: "return Object.getOwnPropertyDescriptor({ get x() { return 1; } }, 'x').get;",
    strbox: "return (function () { return this; }).call('s');", numbox: "return Object(1);", fproto: "return (function () {}).prototype;", thisbox: "return (function () { return this; }).call(5);",
    boolbox: "return (function () { return this; }).call(true);", symbox: "return (function () { return this; }).call(Symbol.iterator);", bigbox: "return (function () { return this; }).call(1n);",
    classfield: "return new (class { f = []; })().f;", evalarr: "return eval('[]');", ievalarr: "return (0, eval)('[]');", newfun: "return new Function('');",
    genobj: "function* g() {} g.prototype = undefined; return g();", asyncgenobj: "async function* g() {} g.prototype = 3; return g();", iterres: "return (function* () { yield 1; })().next();",
};
const LANGERR = {
    nullprop: "null.x;", undef: "return zzundefined;", tdz: "a; let a;", notfun: "({}).f();", notctor: "new (1)();", constassign: "const c = 1; c = 2;", frozen: "'use strict'; Object.freeze({ x: 1 }).x = 2;",
    classcall: "class C {} C();", notiter: "let [a] = 1;", instof: "1 instanceof 1;", inop: "'a' in 1;", bigmix: "1n + 1;", evalsyn: "eval('1 1');", evalconf: "let q; eval('var q');",
    super2: "new (class extends Object { constructor() { super(); super(); } })();", nosuper: "new (class extends Object { constructor() {} })();", privmiss: "class A { #x; static g(o) { return o.#x; } } A.g({});",
    destruct: "let { a } = null;", symnum: "+Symbol();", bigdiv: "1n / 0n;", spreadnon: "Math.max(...1);", derivedret: "new (class extends Object { constructor() { super(); return 1; } })();", heritage: "class A extends 1 {}",
    setgetter: "'use strict'; ({ get x() { return 1; } }).x = 2;", genrunning: "let g = (function* () { g.next(); })(); g.next();", newarrow: "new (() => 1)();",
    privtwice: "class B { constructor(o) { return o; } } class A extends B { #x; } let o = {}; new A(o); new A(o);", deleteprop: "'use strict'; delete Object.freeze({ x: 1 }).x;", templ: "`${Symbol()}`;",
};
/* g: the realm of the function, o: another one.  [function, this, arguments] */
const ERR = {
    arrayLen: (g, o) => [g.Array, undefined, [-1]], decode: (g, o) => [g.decodeURI, undefined, ["%"]], json: (g, o) => [g.JSON.parse, undefined, ["x!"]], defprop: (g, o) => [g.Object.defineProperty, undefined, [1]],
    repeat: (g, o) => [g.String.prototype.repeat, "a", [-1]], bigint: (g, o) => [g.BigInt, undefined, [1.5]], regexp: (g, o) => [g.RegExp, undefined, ["["]], ieval: (g, o) => [g.eval, undefined, ["1 1"]],
    funsyn: (g, o) => [g.Function, undefined, ["}"]], mapcall: (g, o) => [g.Map, undefined, []], reduce: (g, o) => [g.Array.prototype.reduce, new o.Array(), [() => 1]], reflectget: (g, o) => [g.Reflect.get, undefined, [1]],
    proxyinv: (g, o) => [g.Reflect.get, undefined, [new o.Proxy(o.Object.freeze({ x: 1 }), { get: () => 2 }), "x"]], symbolnew: (g, o) => [g.Reflect.construct, undefined, [g.Symbol, []]],
    setproto: (g, o) => [g.Object.setPrototypeOf, undefined, [o.Object.preventExtensions({}), {}]], mapget: (g, o) => [g.Map.prototype.get, new o.Set(), []], fixed: (g, o) => [g.Number.prototype.toFixed, 1, [101]],
    date: (g, o) => [g.Date.prototype.toISOString, new o.Date(NaN), []], weakset: (g, o) => [g.WeakSet.prototype.add, new o.WeakSet(), [1]], promisethis: (g, o) => [g.Promise.resolve, 1, []],
    create: (g, o) => [g.Object.create, undefined, [1]], ab: (g, o) => [g.Reflect.construct, undefined, [g.ArrayBuffer, [-1]]], typed: (g, o) => [g.Uint8Array, undefined, []],
    gen: (g, o) => [g.H_evalScript(HIDDEN.Generator).next, {}, []], normalize: (g, o) => [g.String.prototype.normalize, "a", ["x"]],
    species: (g, o) => [g.Array.prototype.map, Object.assign(new o.Array(), { constructor: { [Symbol.species]: 1 } }), [x => x]], aggregate: (g, o) => [g.Promise.any, g.Promise, [[]]],
    stringraw: (g, o) => [g.String.raw, undefined, []], fromEntries: (g, o) => [g.Object.fromEntries, undefined, [[1]]], bindnon: (g, o) => [g.Function.prototype.bind, 1, []],
    funinj: (g, o) => [g.Function, undefined, ["/*", "*/){"]], funinj2: (g, o) => [g.Function, undefined, ["a", "} function b() {"]], genfuninj: (g, o) => [g.H_evalScript(HIDDEN.GeneratorFunction).constructor, undefined, ["a = function () {", "}) {"]],
    afunpar: (g, o) => [g.H_evalScript(HIDDEN.AsyncFunction).constructor, undefined, ["a) { } async function x(", ""]], reflags: (g, o) => [g.RegExp, undefined, ["a", "gg"]],
    sortcmp: (g, o) => [g.Array.prototype.sort, new o.Array(), [1]], tosym: (g, o) => [g.String.prototype.concat, "", [o.Symbol()]],
};
const P = (g, k) => g[k].prototype;
const MAKE = {
    keys: (a, b) => [a.Object.keys, undefined, [new b.Object()]], entries: (a, b) => [a.Object.entries, undefined, [new b.Object()]], split: (a, b) => [P(a, "String").split, new b.String("a-b"), ["-"]],
    gopn: (a, b) => [a.Object.getOwnPropertyNames, undefined, [new b.Array()]], jsonarr: (a, b) => [a.JSON.parse, undefined, [new b.String("[]")]], jsonobj: (a, b) => [a.JSON.parse, undefined, ["{}"]],
    descr: (a, b) => [a.Object.getOwnPropertyDescriptor, undefined, [new b.Array(), "length"]], descrs: (a, b) => [a.Object.getOwnPropertyDescriptors, undefined, [new b.Array()]],
    objcreate: (a, b) => [a.Object, undefined, []], toobj: (a, b) => [a.Object, undefined, ["s"]], boxing: (a, b) => [a.Object, undefined, [1]], values: (a, b) => [P(a, "Array").values, new b.Array(), []],
    mapit: (a, b) => [P(a, "Map").values, new b.Map(), []], setit: (a, b) => [P(a, "Set").values, new b.Set(), []], strit: (a, b) => [P(a, "String")[Symbol.iterator], new b.String("a"), []],
    mapiter: (a, b) => { let i = P(a, "Map").values.call(new b.Map([[1, 2]])); return [i.next, i, []]; }, arriter: (a, b) => { let i = P(a, "Array").values.call(new b.Array(1, 2)); return [i.next, i, []]; },
    stritres: (a, b) => { let i = P(a, "String")[Symbol.iterator].call("a"); return [i.next, i, []]; },
    map: (a, b) => [P(a, "Array").map, new b.Array(1, 2), [x => x]], filter: (a, b) => [P(a, "Array").filter, new b.Array(1, 2), [x => x]], slice: (a, b) => [P(a, "Array").slice, new b.Array(1, 2), []],
    concat: (a, b) => [P(a, "Array").concat, new b.Array(1, 2), []], splice: (a, b) => [P(a, "Array").splice, new b.Array(1, 2), [0, 1]], flat: (a, b) => [P(a, "Array").flat, new b.Array(1, 2), []],
    flatMap: (a, b) => [P(a, "Array").flatMap, new b.Array(1, 2), [x => x]], toSorted: (a, b) => [P(a, "Array").toSorted, new b.Array(1, 2), []], toSpliced: (a, b) => [P(a, "Array").toSpliced, new b.Array(1, 2), [0, 1]],
    withx: (a, b) => [P(a, "Array").with, new b.Array(1, 2), [0, 1]], toReversed: (a, b) => [P(a, "Array").toReversed, new b.Array(1, 2), []],
    then: (a, b) => [P(a, "Promise").then, b.Promise.resolve(1), []], finally: (a, b) => [P(a, "Promise").finally, b.Promise.resolve(1), []], resolve: (a, b) => [a.Promise.resolve, a.Promise, [new b.Object()]],
    resolveSame: (a, b) => [a.Promise.resolve, b.Promise, [b.Promise.resolve(1)]], resolveOther: (a, b) => [a.Promise.resolve, b.Promise, [1]], all: (a, b) => [a.Promise.all, b.Promise, [[]]],
    tmap: (a, b) => [P(a, "Uint8Array").map, new b.Uint8Array(2), [x => x]], tslice: (a, b) => [P(a, "Uint8Array").slice, new b.Uint8Array(2), []], tsub: (a, b) => [P(a, "Uint8Array").subarray, new b.Uint8Array(2), []],
    bufslice: (a, b) => [P(a, "ArrayBuffer").slice, new b.ArrayBuffer(2), []], tobuf: (a, b) => { let f = () => new a.Uint8Array(new b.Uint8Array(2)).buffer; return [f, undefined, []]; },
    exec: (a, b) => [P(a, "RegExp").exec, new b.RegExp("a"), ["a"]], matchAll: (a, b) => [P(a, "RegExp")[Symbol.matchAll], new b.RegExp("a", "g"), ["a"]], match: (a, b) => [P(a, "RegExp")[Symbol.match], new b.RegExp("a", "g"), ["a"]],
    arrfrom: (a, b) => [a.Array.from, b.Array, [[1]]], arrof: (a, b) => [a.Array.of, b.Array, [1]], bind: (a, b) => [P(a, "Function").bind, b.H_evalScript("(function () {})"), []], proxyrev: (a, b) => [a.Proxy.revocable, undefined, [{}, {}]],
    fromEntries: (a, b) => [a.Object.fromEntries, undefined, [new b.Map([[1, 2]])]], ownKeys: (a, b) => [a.Reflect.ownKeys, undefined, [new b.Object()]], reflApply: (a, b) => [a.Reflect.apply, undefined, [b.H_evalScript("(function () { return []; })"), undefined, []]],
    genNext: (a, b) => [a.H_evalScript(HIDDEN.Generator).next, b.H_evalScript("(function* () { yield 1; })()"), []],
    genDone: (a, b) => { let g = b.H_evalScript("(function* () {})()"); g.next(); return [a.H_evalScript(HIDDEN.Generator).next, g, []]; },
    callArr: (a, b) => [a.H_evalScript("(f => f())"), undefined, [b.H_evalScript("(function () { return []; })")]], newArr: (a, b) => [a.Reflect.construct, undefined, [b.Array, []]], raw: (a, b) => [a.Function, undefined, [""]],
    assign: (a, b) => [a.Object.assign, undefined, [new b.Object(), {}]],
};
/* ways to call f with this value t and arguments l, seen from realm d; the outcome is [ok, value] */
function via(way, d, f, t, l) {
    let out, run = g => { try { out = [true, g()]; } catch (e) { out = [false, e]; } };
    switch (way) {
    case 0: run(() => Reflect.apply(f, t, l)); break;
    case 1: run(() => d.Reflect.apply(f, t, l)); break;
    case 2: { let b = d.Function.prototype.bind.apply(f, [t, ...l]); run(() => b()); break; }
    case 3: { let p = new d.Proxy(f, {}); run(() => Reflect.apply(p, t, l)); break; }
    case 4: { let o = d.H_evalScript("(f, t, l) => [0].map(() => Reflect.apply(f, t, l))[0]"); run(() => o(f, t, l)); break; }
    case 5: { let o = d.H_evalScript("(f, t, l) => ({ get x() { return Reflect.apply(f, t, l); } })")(f, t, l); run(() => o.x); break; }
    case 6: { let o = d.H_evalScript("(f, t, l) => ({ [Symbol.iterator]() { return { next: () => { return { done: true, value: Reflect.apply(f, t, l) }; } } } })")(f, t, l), v;
              let g = d.H_evalScript("(function* (o) { return [yield* o]; })"); run(() => g(o).next().value[0]); break; }
    case 7: { let p = d.Promise.resolve(1).then(d.H_evalScript("(f, t, l) => () => [Reflect.apply(f, t, l)]")(f, t, l)); p.then(v => { out = [true, v[0]]; }, e => { out = [false, e]; }); H_solveJobs(); break; }
    case 8: { let q = new d.Proxy({}, { get: d.H_evalScript("(f, t, l) => () => Reflect.apply(f, t, l)")(f, t, l) }); run(() => q.zz); break; }
    case 9: { let v = d.H_evalScript("(f, t, l) => async () => { await 0; return [Reflect.apply(f, t, l)]; }")(f, t, l)(); v.then(v => { out = [true, v[0]]; }, e => { out = [false, e]; }); H_solveJobs(); break; }
    }
    return out;
}
let realmPool;
function newSUT(c) {
    let rl = [SELF, H_createRealm(), H_createRealm()];
    let s = {rl, cls: new Map(), own: new Map()};
    rl.forEach((g, i) => {
        for (let k of CTORS) s.cls.set(g[k].prototype, [i, k]);
        for (let k in HIDDEN) s.cls.set(g.H_evalScript(HIDDEN[k]), [i, k]);
    });
    for (let k of ["x", "y"]) SELF[k] = undefined;
    for (let k of ["Array", "Object", "String", "Number", "Function", "Map"]) delete SELF[k].prototype["zz" + k];
    return s;
}
function kind(s, v, tag) {
    if (v === null || typeof v != "object" && typeof v != "function") return ["?", String(v)];
    let p = Reflect.getPrototypeOf(v);
    if (s.own.has(p)) return ["own", s.own.get(p)];
    let c = s.cls.get(p);
    return c ? [tag, c[0], c[1]] : ["?", "unknown prototype"];
}
function target(s, t) {
    let g = s.rl[t[1]];
    if (t[0] == "f") {
        let f = g.H_evalScript(["(function () {})", "(class {})", "(function () { 'use strict'; })"][t[4] ?? 0]);
        if (t[2] == "obj") { if (t[4] != 1) f.prototype = {}; s.own.set(f.prototype, t[3]); }
        else if (t[4] == 1) f = g.H_evalScript("(function () {})"), f.prototype = 1; else f.prototype = [undefined, null, 1, "s"][t[3] % 4];
        return f;
    }
    let i = target(s, t[2]);
    if (t[0] == "bound") return g.Function.prototype.bind.call(i, null);
    if (t[0] == "proxy") return new g.Proxy(i, {});
    let r = g.Proxy.revocable(i, {});
    s.revoke.push(r.revoke);
    return r.proxy;
}
function ctorArgs(g, c) {
    switch (c) {
    case "Promise": return [() => 1];
    case "WeakRef": return [{}];
    case "FinalizationRegistry": return [() => 1];
    case "AggregateError": return [[]];
    case "DataView": return [new g.ArrayBuffer(1)];
    }
    return [];
}
function step1(s, x) {
    let a = s.rl[x.a ?? 0], b = s.rl[x.b ?? 0], d = s.rl[x.d ?? 0];
    switch (x.n) {
    case "new": {
        s.revoke = [];
        s.own = new Map();
        let nt = target(s, x.t);
        for (let f of s.revoke) f();
        let c = x.c == "fn" ? a.H_evalScript("(function () {})") : x.c == "ctor" ? a.H_evalScript("(class { #p = 1; constructor() {} })") : x.c == "cls" ? a.H_evalScript("(class { #p = 1; })") : x.c in HIDDEN ? a.H_evalScript(HIDDEN[x.c]).constructor : a[x.c];
        try { return kind(s, d.Reflect.construct(c, ctorArgs(a, x.c), nt), "p"); } catch (e) { return kind(s, e, "err"); }
    }
    case "lang": { let r = via(x.way, d, a.H_evalScript("(function () { " + LANG[x.k] + " })"), undefined, []); return r[0] ? kind(s, r[1], "p") : kind(s, r[1], "err"); }
    case "langerr": { let r = via(x.way, d, a.H_evalScript("(function () { " + LANGERR[x.k] + " })"), undefined, []); return r[0] ? ["no error"] : kind(s, r[1], "err"); }
    case "err": {
        let r = via(x.way, d, ...ERR[x.k](a, b));
        if (x.k == "aggregate" && r[0]) { let q = r; r[1].catch(e => { r = [false, e]; }); H_solveJobs(); }
        return r[0] ? ["no error"] : kind(s, r[1], "err");
    }
    case "make": { let r = via(x.way, d, ...MAKE[x.k](a, b)); return kind(s, r[1], r[0] ? "p" : "err"); }
    case "this": { let r = via(x.way, d, a.H_evalScript("(function () { return [this]; })"), x.null ? null : undefined, []); return ["global", s.rl.indexOf(r[1][0])]; }
    case "setvar": if (x.how == 0) a[x.k] = x.v; else if (x.how == 1) a.H_evalScript("var " + x.k + " = " + x.v); else if (x.how == 2) a.Function(x.k + " = " + x.v)(); else a.eval(x.k + " = " + x.v); return ["u"];
    case "getvar": return ["i", (x.how == 0 ? a[x.k] : x.how == 1 ? a.H_evalScript("typeof " + x.k + " == 'undefined' ? undefined : " + x.k) : a.Function("return typeof " + x.k + " == 'undefined' ? undefined : " + x.k)()) ?? 0];
    case "patch": if (x.how == 0) a[x.k].prototype["zz" + x.k] = x.v; else a.H_evalScript(x.k + ".prototype.zz" + x.k + " = " + x.v); return ["u"];
    case "probe": { let o = a.H_evalScript({Array: "[]", Object: "({})", String: "new String('')", Number: "Object(1)", Function: "(() => 1)", Map: "new Map()"}[x.k]);
                    return ["i", (x.how == 0 ? o["zz" + x.k] : b.H_evalScript("(o => o.zz" + x.k + ")")(o)) ?? 0]; }
    case "prim": return ["i", (x.k == "Number" ? a.H_evalScript("(1).zzNumber") : x.k == "String" ? a.H_evalScript("''.zzString") : a.H_evalScript("(v => v.zz" + x.k + ")")(a[x.k == "Object" || x.k == "Map" ? x.k : "Array"].prototype)) ?? 0];
    case "symbol": return ["b", a.Symbol.for("k" + x.k) === b.Symbol.for("k" + x.k) && a.Symbol.iterator === b.Symbol.iterator && a.Symbol.keyFor(b.Symbol.for("q")) == "q"];
    }
}
function step(s, x) { try { return step1(s, x); } catch (e) { return ["throw", e && e.name + ": " + e.message]; } }
