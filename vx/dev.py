"""dev helper: python3 -m vx.dev UNIT [entry|exit]"""
import sys, os
from . import unit, verus
name = sys.argv[1]
mode = sys.argv[2] if len(sys.argv) > 2 else ""
u = unit.build(name, mode)
os.makedirs("/verif/.cache/gen", exist_ok=True)
p = f"/verif/.cache/gen/{name}{('_' + mode) if mode else ''}.rs"
open(p, "w").write(u.source)
r = verus.run(p, extra=sys.argv[3:])
if u.lost: print("LOST:", u.lost)
for k in ("structural", "genuine", "rlimit"):
    for x in getattr(r, k)[:12]:
        print(f"[{k}]", x["rendered"].strip()[:1500])
print("ok", r.ok, "verified", r.verified, "errors", r.errors, f"{r.wall:.1f}s", "fns", len(u.functions))
slow = sorted(r.functions, key=lambda f: -f[1])[:4]
print([(f[0], round(f[1])) for f in slow])
