/* KF1 */ const g = { get f() { return 1; } };
try { class A { [(log('k'), g.f = 1)]() { } } log('sloppy key'); } catch (e) { log(e); }
====
/* KF2 */ const g = { get f() { return 1; } };
try { class A extends (log('h'), g.f = 1, null) { } log('sloppy heritage'); } catch (e) { log(e); }
====
const q = { };
try { undefined.k = log('rhs'); } catch (e) { log(e); }
try { undefined[0] = log('rhs'); } catch (e) { log(e); }
try { undefined[0] += log('rhs'); } catch (e) { log(e); }
try { (undefined[0])(log('rhs')); } catch (e) { log(e); }
try { (null.x) = log('rhs'); } catch (e) { log(e); }
try { [null.x] = [1]; } catch (e) { log(e); }
try { log(q in 5); } catch (e) { log(e); }
log(q?.f?.(log('no')), q?.a.b, 1);
