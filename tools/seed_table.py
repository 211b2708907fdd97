"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
MARK = "## 6. Planted bugs\n"
rows = []
for path in sorted((ROOT / "seeded").glob("*/meta.json")):
    m = json.loads(path.read_text())
    rows.append(f"| {path.parent.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
design = ROOT / "DESIGN.md"
head = design.read_text().split(MARK)[0].rstrip()
intro = """
Each bug in `seeded/` passes the 506 stable tests, has a demonstration of its own, and is caught by the
quick check of the property named here (confirmed by running the check on the patched tree).  Those called
`p...` were planted while the checks were built and q... in a second round, after further bugs of the same
kinds had been tried as mutants.  More than 150 hand-written mutants and 410 automatic ones (operators,
constants, conditions, removed statements) were tried as well.  What they taught, and what
the checks were strengthened with: sizes beyond a block or a threshold (P06, P08, P09, P11, P14, P15, P20,
P24), parameters far from the usual (P01-P03, P05, P16, P19, P22), units (P07, P08, P14, P21, P24, P30),
dependence between points far apart and tails (P05), seeds which share their low bits (P04, P06, P24).
Known to be out of reach of the quick tier: wrong neighbour counts above 32 767 points (P14; thorough only),
smoothing parameters of MINE above 0.999 (P22), errors of the size of single-precision rounding.

| bug | caught by | what it breaks | what it needs |
|---|---|---|---|
"""
design.write_text(head + "\n\n" + MARK + intro + "\n".join(rows) + "\n")
print(len(rows), "planted bugs")
