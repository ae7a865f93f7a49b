#!/usr/bin/env python3
"""Writes BOUNDS.md: the families of every check, as the explorer lists them (needs built explorers)."""
import os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for b, t in (("real", "target"), ("small", "target-small")):
    out = subprocess.run([os.path.join(H, "mc", t, "release", "mc"), "list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    for l in out.splitlines():
        p, tier, name, n, what = l.split(" ", 4)
        rows.setdefault((p, b, name), {})[tier] = (int(n), what)
with open(os.path.join(H, "BOUNDS.md"), "w") as f:
    f.write("# Families explored by each check\n\nGenerated by tools/gen_bounds.py. A case may comprise many executions (all fault placements, all interleavings).\n")
    last = None
    for (p, b, name), t in sorted(rows.items()):
        if p != last:
            f.write("\n## %s\n\n" % p)
            last = p
        q, th = t.get("quick"), t.get("thorough")
        if q and th and q == th:
            f.write("* **%s %s** both tiers, %d cases: %s\n" % (b, name, q[0], q[1]))
        else:
            f.write("* **%s %s**\n" % (b, name))
            for k, x in (("quick", q), ("thorough", th)):
                if x:
                    f.write("  * %s, %d cases: %s\n" % (k, x[0], x[1]))
