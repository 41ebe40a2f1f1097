let p = Promise.resolve(1);
p.then(v => { log('a', v); Promise.resolve(2).then(w => { log('b', w); }); solve(); log('c'); });
p.then(v => { log('d', v); });
log('main');
solve();
log('end');
====
let o = { get then() { log('get'); return (f) => { log('then'); solve(); f(7); log('after'); }; } };
Promise.resolve(o).then(v => { log('got', v); solve(); throw 1; }).catch(e => { log('caught', e); solve(); });
Promise.resolve(3).then(() => { log('x'); solve(); log('y'); });
====
async function f(n) { log('in', n); await 0; log('mid', n); solve(); await 0; log('out', n); return n; }
f(1).then(v => { log('r', v); solve(); });
f(2).then(v => { log('r', v); });
solve();
log('z');
====
function* g() { log('g1'); solve(); yield 1; log('g2'); solve(); }
let i = g();
Promise.resolve().then(() => { log('job'); try { log(i.next().value); } catch (e) { log('err'); } });
log(i.next().value);
log(i.next().done);
solve();
log('e');
====
async function* ag() { log('1'); solve(); yield 1; log('2'); solve(); yield 2; }
let i = ag();
i.next().then(r => { log(r.value); solve(); });
i.next().then(r => { log(r.value); solve(); });
i.return(5).then(r => { log(r.value, r.done); });
solve();
log('e');
====
new Promise((a, b) => { Promise.resolve().then(() => { log('t'); throw 1; }).finally(() => { log('f'); solve(); a(9); }).catch(() => { log('c'); }); }).then(v => { log('v', v); });
try { solve(); throw 2; } catch (e) { log('m', e); } finally { solve(); }
log('end');
