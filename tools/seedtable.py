"""Rewrites the last section of DESIGN.md from seeded/*/meta.json and seeded results."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "DESIGN.md")
s = open(p).read().split("## Planted bugs")[0].rstrip() + "\n\n"
s += """## Planted bugs (seeded/) and which check catches them

Each was confirmed with tools/seed.py: the stable tests pass with the patch, and the demonstration fails with it and passes
without it. All are caught by the quick check of the property named here; those marked * were missed at first, and the
check was strengthened (more shapes in the specification's constants, or a longer behaviour).

| change | property (check) | what it needs |
|---|---|---|
"""
LATE = set(open(os.path.join(R, "tools", "seeds_missed.txt")).read().split())
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    s += f"| {n}{'*' if n in LATE else ''} | {m['property']} | {' '.join(m['needs'].split())} |\n"
open(p, "w").write(s)
