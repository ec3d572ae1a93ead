#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HEAD = "## Planted bugs\n"
rows = []
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    t = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    rows.append((m["property"], b, t(m["needs"]), t(m["what_it_breaks"])))
rows.sort()
d = open(V + "/DESIGN.md").read().split(HEAD)[0].rstrip("\n") + "\n\n" + HEAD
d += f"""
{len(rows)} changes that compile and pass the existing tests, each with a demonstration, are kept in `seeded/`. Every one of them is caught by
the quick check of the property it names (`tools/catch.sh` runs them). Those that were missed when first tried led to: the
checked and the plain build side by side, the nested calls, the fixed and counted system randomness, the stopped clock, the
counted random bits and single-deck extremes of C16, the surroundings of C24, the generated programs of C13, the short-lived
threads and the deadlock watchdog of C08/C28, the interrupted calls of C25, and longer lists in C05, C20 and C25.

| property | change | needs | breaks |
|----|----|----|----|
"""
d += "".join(f"| {p} | {b} | {n} | {w} |\n" for p, b, n, w in rows)
open(V + "/DESIGN.md", "w").write(d)
