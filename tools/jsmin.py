"""development aid: show generated program number i and run it on the engine alone"""
import sys, os, random, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib")); sys.path.insert(0, os.path.join(ROOT, "tools"))
import vlib, jsast, jsgen, jsdev
gen, n, seed, i = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
rng = random.Random(gen + seed)
progs = [getattr(jsgen, gen)(rng) for _ in range(n)]
s, st = progs[i]
work = tempfile.mkdtemp()
print(("strict\n" if st else "") + s)
print(jsdev.rat_run([{"s": jsast.wrap(s, st)}], work, sys.argv[5] if len(sys.argv) > 5 else "plain"))
