#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design-head.md, the annotations of the harnesses, and tools/design-tail.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design-head.md").read().rstrip(), "", "## 3. Bounds, and what is outside (generated from `harness/`)", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    f = "%s/harness/%s.cpp" % (V, p["id"])
    if not os.path.exists(f):
        continue
    ann = {}
    for line in open(f):
        m = re.match(r"//@\s*([a-z-]+):\s*(.*)", line)
        if m:
            ann.setdefault(m.group(1), []).append(m.group(2).strip())
    out.append("**%s %s.** Entries: %s." % (p["id"], p["title"], ", ".join("`%s`" % e.split()[0] + (" (threads)" if " mt" in e else "") for e in ann["entry"])))
    for k, n in (("bounds", "Bounds"), ("outside", "Outside"), ("stub", "Stubs"), ("assume", "Assumed"), ("flags", "Flags")):
        for x in ann.get(k, []):
            out.append("%s: %s." % (n, x))
    out.append("")
tail = open(V + "/tools/design-tail.md").read()
rows = ["| planted | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/seed-results.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], res.get(n, "not recorded")))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n" + tail.replace("@@SEEDS@@", "\n".join(rows)))
