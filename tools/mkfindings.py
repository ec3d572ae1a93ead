#!/usr/bin/env python3
"""Writes /verif/known_findings.json (run by hand; no check runs it)."""
import json, os
F = []
for r in "23456789TJQKA":
    for i, a in enumerate("cdhs"):
        for b in "cdhs"[i + 1:]:
            F.append({"property": "C22", "signature": f"order-equal {r}{a}={r}{b}", "what": f"{r}{a}.cmp({r}{b}) is Equal although {r}{a} != {r}{b}: an ordered set or map keyed by cards keeps only one of them"})
doc = {"findings": F, "fixed": [
    "fixed: property=C07 691e4b7 the default Evaluator (also what mem::take leaves behind) panicked on every valid hand",
    "fixed: property=C11 4852141 the length error of a refused card text stated its length in bytes, not characters",
    "fixed: property=C20 d29fd51 the not-unique error printed its repeated cards in a random order, so the same error printed different texts",
    "fixed: property=C27 a4dd7b0 the game's README promised other payouts for straights and royal flushes than the game pays",
]}
json.dump(doc, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
