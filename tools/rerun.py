#!/usr/bin/env python3
"""rerun.py REPLAY DRIVER [flavor] [rjsh options]: run one replay file's input on an engine build."""
import json, sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rp, drv = sys.argv[1:3]
fl = sys.argv[3] if len(sys.argv) > 3 else "plain"
opts = sys.argv[4:]
d = json.load(open(rp))
open("/tmp/rr.js", "w").write(open(V + "/drivers/lib.js").read() + __import__("re").sub(r"^/\*@include (\S+)\*/$", lambda m: open(V + "/drivers/" + m.group(1)).read(), open(V + "/drivers/" + drv).read(), flags=8) + "\nL_main();\n")
open("/tmp/rr.nd", "w").write(json.dumps(d["input"]) + "\n")
p = subprocess.run([V + "/build/%s/rjsh" % fl] + opts + ["/tmp/rr.js", "/tmp/rr.nd"], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                   env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", RJS_LOG_LEVEL="error"), errors="replace", text=True, timeout=120)
print("rc", p.returncode); print(p.stdout[-600:]); print(p.stderr[:3500])
