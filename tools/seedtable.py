#!/usr/bin/env python3
"""which rules catch which seeded change: fills @@SEEDS@@ / the table of section 4 in DESIGN.md"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = os.path.join(V, "seeded", sid)
    m = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seedtab.")
    try:
        for x in ("src", "Cargo.toml", "Cargo.lock"):
            s = os.path.join("/repo", x)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(w, x))
            elif os.path.exists(s):
                shutil.copy(s, w)
        subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=w, check=True)
        out = subprocess.run([sys.executable, "-m", "analysis.check", m["property"]], cwd=V, capture_output=True, text=True,
                             env=dict(os.environ, UFLOW_REPO=w, UFLOW_EVIDENCE=os.path.join(w, "ev"))).stdout
        rules = sorted(set(re.findall(r"\[([a-z_.]+)\]", out)))
        return "| %s | %s: %s | %s |" % (sid, m["property"], m["what_it_breaks"].replace("|", "/"), ", ".join(rules) or "MISSED")
    finally:
        shutil.rmtree(w)


with ThreadPoolExecutor(3) as ex:
    rows = list(ex.map(one, sorted(os.listdir(os.path.join(V, "seeded")))))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", "\n".join(rows))
else:
    s = re.sub(r"(\| seed \| breaks \| caught by rules \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", s)
open(p, "w").write(s)
print("\n".join(r for r in rows if "MISSED" in r) or "all caught")
