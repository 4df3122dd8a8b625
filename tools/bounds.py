#!/usr/bin/env python3
"""Writes /verif/HARNESSES.md: every harness with the bounds stated above it."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for d, _, fs in sorted(os.walk(os.path.join(V, "harness"))):
    for f in sorted(fs):
        if not f.endswith(".go"):
            continue
        L = open(os.path.join(d, f)).read().split("\n")
        for i, l in enumerate(L):
            m = re.match(r"//sym:harness (.*)", l)
            if not m:
                continue
            kv = dict((x.split("=", 1) + [""])[:2] for x in m.group(1).split())
            j = i - 1
            desc = []
            while j >= 0 and L[j].startswith("//"):
                desc.insert(0, L[j][2:].strip())
                j -= 1
            k = i + 1
            while not L[k].startswith("func "):
                k += 1
            name = re.match(r"func (\w+)", L[k]).group(1)
            rows.setdefault(kv["prop"], []).append((kv.get("tier", "quick"), name, os.path.relpath(os.path.join(d, f), V), " ".join(x for x in desc if x), kv))
with open(os.path.join(V, "HARNESSES.md"), "w") as o:
    o.write("# Harnesses and their bounds\n\nMade by tools/bounds.py from the text above every harness. The quick ones run in both tiers.\n")
    for p in sorted(rows):
        o.write("\n## %s\n\n" % p)
        for t, n, f, d, kv in rows[p]:
            x = "".join(", " + {"faults": "every system call may fail", "race": "data races are looked for"}[k] for k in ("faults", "race") if k in kv)
            o.write("- **%s** (%s%s; %s): %s\n" % (n, t, x, f, d))
print(sum(map(len, rows.values())), "harnesses")
