#!/usr/bin/env python3
"""Writes /verif/BOUNDS.md: the bounds of every harness, from its annotations."""
import re, glob, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Bounds of every harness", "", "Generated by tools/mkbounds.py from the `verif:bound` annotations. Nothing is claimed outside them.", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    out += [f"## {p['id']} {p['title']}", ""]
    for f in sorted(glob.glob(f"{V}/harness/*/{p['id'].lower()}_*.go")):
        s = open(f).read()
        for m in re.finditer(r"// verif:bound (.*)\n((?:// verif:.*\n)*)func Verif(\w+)\(", s):
            parts = re.search(r"verif:parts (\d+)", m[2])
            tier = " (thorough only)" if "verif:tier thorough" in m[2] else ""
            out.append(f"- `{os.path.relpath(f, V)}` {m[3]}{tier}, {parts[1] if parts else 1} part(s): {m[1]}")
    out.append("")
open(V + "/BOUNDS.md", "w").write("\n".join(out))
