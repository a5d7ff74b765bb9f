#!/usr/bin/env python3
"""Rewrites the "Planted bugs" section of DESIGN.md from seeded/*/meta.json (development only)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
FIRST_MISSED = {
 "long-picture-line": "`long-lines` family of C14", "words-with-spaces": "C19: words with blanks, tabs, CR",
 "luminance-first-picture": "C34: luminance with lists of pictures", "option-prefix": "C36: family `file-names`", "sixteen-bit-positions": "C19: family `wide-files`",
 "thousand-pictures": "C34: lists of up to 1025 pictures", "tie-of-fonts": "C26: tied fonts in every order", "lower-bound-of-256": "C21: up to 700 siblings",
 "long-line-dropped": "C19: lines of up to 65537 bytes", "votes-of-long-lines": "C25: family `lone-voter`", "stop-at-long-word": "C29: family `long-words`",
 "font-of-31": "C15: family `long-fonts`", "two-giga-pixels": "C01: family `huge`",
}
rows = []
for d in sorted(os.listdir(S)):
    m = json.load(open(f"{S}/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"]))
rows.sort()
t = """## Planted bugs

`tools/matrix.py` tries the changes of `seeded/` (private mount of a scratch copy; apply, build, stable tests, demonstration
without and with the change, checks). All of them count and are caught by the quick check of their own property. Changes that
were missed when first tried, and what was strengthened, are marked. `tools/mutate.py` applied several hundred mechanical
mutations (operators, constants, conditions, statements) to the sources; the survivors were reviewed and are equivalent
(capacity hints, diagnostics on standard error, unreachable defaults) or led to new families.

| check | planted change | it needs | first missed; strengthened by |
|---|---|---|---|
"""
for p, d, n in rows:
    t += f"| {p} | {d} | {n} | {FIRST_MISSED.get(d, '')} |\n"
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
s = s[:s.index("## Planted bugs")] + t
open(f, "w").write(s)
print(len(rows))
