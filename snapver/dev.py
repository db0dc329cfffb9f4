import sys, os
from . import paths, unitdefs, verus
name = sys.argv[1]
u = getattr(unitdefs, "unit_" + name)()
t = u.text(unitdefs.HDR)
d = os.path.join(paths.BUILD, "gen"); os.makedirs(d, exist_ok=True)
p = os.path.join(d, name + ".rs")
open(p, "w").write(t)
if getattr(u, "unused", None): print("UNUSED contracts:", u.unused)
r = verus.run(p, timeout=900)
n = int(sys.argv[2]) if len(sys.argv) > 2 else 6
for x in r.diags[:n]:
    print("[%s]" % x["item"]); print(x["rendered"])
print("ok" if r.ok else "FAIL", r.verified, "verified", r.errors, "errors", "%.1fs" % r.wall, "fatal=%s" % r.fatal if r.fatal else "")
if r.fatal and not r.diags: print(r.raw[-3000:])
