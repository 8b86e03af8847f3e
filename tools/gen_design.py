#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md with the bounds, stubs and assumptions of every harness filled in."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
out = []
for l in open(V + "/tools/design.md"):
    if l.strip() == "@@FIXES":
        for h in open(V + "/known_findings.txt"):
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", h.strip())
            if m:
                out.append("| %s | %s | %s |\n" % m.groups())
        continue
    if l.strip() == "@@SEEDED":
        for d in sorted(os.listdir(V + "/seeded")):
            m = json.load(open(V + "/seeded/%s/meta.json" % d))
            out.append("| %s | %s | %s | %s |\n" % (d, m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
        continue
    m = re.match(r"@@ (C\d\d)$", l.strip())
    if not m:
        out.append(l)
        continue
    pid = m.group(1)
    out.append("### %s %s\n\n" % (pid, props[pid]["title"]))
    f = V + "/harness/%s.rs" % pid
    if os.path.exists(f):
        names = {"bounds": "Bounds", "assume": "Assumes", "stub": "Replaced"}
        ent = []
        for h in open(f):
            k = re.match(r"//@ (\w+): (.*)", h.strip())
            if k and k.group(1) in names:
                out.append("- *%s*: %s.\n" % (names[k.group(1)], k.group(2).strip().rstrip(".")))
            elif k and k.group(1) == "entry":
                w = k.group(2).split()
                o = dict(x.split("=", 1) for x in w[1:])
                fl = [o.get("mode", "real")] + [x for x in ("merge", "snap", "ideal", "nonzero") if o.get(x) == "1"]
                ent.append("`%s` (%s)" % (w[0], "+".join(fl)))
        out.append("- *Entries*: %s.\n" % ", ".join(ent))
open(V + "/DESIGN.md", "w").writelines(out)
