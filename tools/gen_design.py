#!/usr/bin/env python3
"""writes DESIGN.md from its hand-written parts, properties.jsonl, the last evidence and seeded/"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = V + "/tools/"
exec(open(T + "design_props.py").read())
o = open(T + "design_head.md").read()
o += "\n## Property by property\n\nCost: quick tier on this machine (8 cores, checker already built). \"Tests\": why the repository's tests cannot settle it.\n\n"
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]; a, b, c = PROPS[i]
    cost = ""
    f = V + "/evidence/%s.json" % i
    if os.path.exists(f):
        e = json.load(open(f)); k = e["coverage"]
        cost = " Quick: %s states, %s transitions, %s traces, %.0f s." % (format(k["states"], ","), format(k["transitions"], ","), format(k["traces_validated_against_impl"], ","), e["wall_s"])
    o += "**%s %s.** Enumerated: %s. Oracle: %s. Tests: %s.%s\n\n" % (i, d["title"], a, b, c if c != "-" else "they sample a few inputs", cost)
o += open(T + "design_tail.md").read()
o += "| property | planted bug: what it needs |\n|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o += "| %s | `%s`: %s; %s |\n" % (m["property"], n, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
open(V + "/DESIGN.md", "w").write(o)
