#!/usr/bin/env python
"""Rewrites the generated table of DESIGN.md (section 2) from the contracts and the evidence of the last runs."""
import glob
import importlib
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from engine import api
for f in sorted(glob.glob(VERIF + "/contracts/c[0-9]*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
titles = {}
for l in open(VERIF + "/properties.jsonl"):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
out = []
for p in sorted(api.CASES):
    try:
        e = json.load(open("%s/evidence/%s.json" % (VERIF, p)))
        w = " Obligations %d, all discharged (%s)." % (e["coverage"]["obligations"], ", ".join("%s %d" % kv for kv in sorted(e["coverage"]["backends"].items())))
        if e["coverage"]["obligations"] != e["coverage"]["discharged"]:
            sys.exit("%s: run check.py on the unchanged tree first" % p)
    except FileNotFoundError:
        w = ""
    out.append("**%s** %s.%s" % (p, titles[p], w))
    out.append("")
    for c in api.CASES[p]:
        doc = " ".join((c.fn.__doc__ or "").split())
        fns = ", ".join("`%s`" % f for f in c.functions)
        kind = "proved" if c.do_sym else "bounded"
        b = " Bound: %s." % c.bounded if c.bounded and c.do_sym else " Scope: %s." % c.bounded if c.bounded else ""
        if c.do_sym and c.bounded:
            kind = "proved up to a bound"
        out.append(" * `%s` (%s): %s.%s On %s." % (c.name, kind, doc.rstrip("."), b, fns))
    out.append("")
t = open(VERIF + "/DESIGN.md").read()
a, z = "<!-- generated by tools/design.py -->", "<!-- end of generated -->"
assert a in t and z in t
t = t[:t.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + t[t.index(z):]
open(VERIF + "/DESIGN.md", "w").write(t)
