#!/usr/bin/env python3
"""writes RULES.md: every rule, what it demands, and the properties it is a necessary part of"""
import importlib
import os
import pkgutil
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import analysis.r as R  # noqa: E402
for m in pkgutil.iter_modules(R.__path__):
    importlib.import_module("analysis.r." + m.name)
from analysis.rules import RULES  # noqa: E402

byp = {}
for rid, props, text, fn in RULES:
    for p in props:
        byp.setdefault(p, []).append(rid)
with open(os.path.join(V, "RULES.md"), "w") as f:
    f.write("# The rules (generated by tools/inventory.py)\n\n%d rules. A check runs every rule that names its property.\n\n" % len(RULES))
    f.write("| property | rules |\n|---|---|\n")
    for p in sorted(byp):
        f.write("| %s | %s |\n" % (p, ", ".join(byp[p])))
    f.write("\n")
    mod = None
    for rid, props, text, fn in sorted(RULES, key=lambda r: (r[3].__module__, r[0])):
        if fn.__module__ != mod:
            mod = fn.__module__
            f.write("\n## %s.py\n\n" % mod.replace("analysis.r.", "analysis/r/"))
        f.write("- **%s** (%s): %s\n" % (rid, " ".join(props), text))
