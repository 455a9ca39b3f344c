#!/usr/bin/env python3
"""Writes spec/IdnaTable.tla: a finite repertoire of internationalized labels and their A-labels.
The A-labels come from Python's punycode codec, the mapping of upper case from str.lower (not from the idna crate)."""
import os
U = ["中国", "例子", "假例子", "子", "ä", "bücher", "straße", "☕", "🎆", "пример", "ελλάς", "日本語", "é", "ñandú", "中国-cn", "a中", "中1"]
VARIANTS = {"Ä": "ä", "BÜCHER": "bücher", "ПРИМЕР": "пример", "É": "é", "ñANDÚ": "ñandú", "ａ中": "a中"}   # mapped forms
BAD = ["\u0301a", "a\u0080b", "\ufffd", "\u2028", "中\u00a0"]           # not allowed
LONG = ["中" * 20, "ä" * 56, "ä" * 58]
def a(u): return "xn--" + u.encode("punycode").decode()
def tup(b): return "<<" + ", ".join(str(x) for x in b) + ">>"
rows = []
def row(u, av, uv): rows.append("  <<%s, %s, %s>>" % (tup(u.encode()), tup(av.encode()), tup(uv.encode())))
for u in U + LONG:
    row(u, a(u), u)
    row(a(u), a(u), u)
for v, u in VARIANTS.items():
    row(v.lower() if False else "".join(c.lower() if c.isascii() else c for c in v), a(u), u)
for b in BAD:
    row(b, "", "")
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "IdnaTable.tla")
with open(p, "w") as f:
    f.write("----------------------------- MODULE IdnaTable -----------------------------\n"
            "(* Generated by tools/mkidna.py.  <<label, A-label, U-label>>; labels in      *)\n"
            "(* lower-case ASCII; an empty A-label means: not allowed.                     *)\n"
            "IdnaRows == {\n" + ",\n".join(rows) + "\n}\n"
            "=============================================================================\n")
for u in LONG: print(len(a(u)))
