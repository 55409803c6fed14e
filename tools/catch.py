#!/usr/bin/env python3
"""Runs all checks on each planted bug (or those named) and records in tools/caught.json which report it."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/tools/caught.json"
c = json.load(open(p)) if os.path.exists(p) else {}
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
o = subprocess.run([sys.executable, V + "/tools/probe.py"] + ["%s/seeded/%s/patch.diff" % (V, i) for i in ids], stdout=subprocess.PIPE, text=True).stdout
for i in ids:
    m = re.search(r"^%s/patch\.diff\s+(.*)$" % re.escape(i), o, re.M)
    c[i] = [] if not m or m.group(1) == "quiet" else m.group(1).split()
    own = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    if own not in c[i]:
        print("MISSED", i, c[i])
json.dump({k: c[k] for k in sorted(c) if os.path.isdir(V + "/seeded/" + k)}, open(p, "w"), indent=0)
