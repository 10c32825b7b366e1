#!/usr/bin/env python3
"""DESIGN.md = design_head.md + one section per property (from props.py, the specs and the notes below) + design_tail.md"""
import sys, os, json, glob, importlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + "/engine", R + "/specs", R + "/tools"]
from design_notes import NOTES
out = open(R + "/tools/design_head.md").read()
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out += "\n### %s. %s\n" % (i, p["title"])
    try:
        s = importlib.import_module(i.lower())
    except ImportError:
        out += "Not applicable: see MANIFEST.json.\n"; continue
    fns = [t["name"] for t in s.TARGETS if "lemma" not in t]
    lem = [t["name"] for t in s.TARGETS if "lemma" in t]
    out += NOTES.get(i, "") + "\n\n"
    out += "*Under contract (%d):* %s.\n" % (len(fns), ", ".join("`%s`" % f for f in fns))
    if lem: out += "*Lemmas:* %s.\n" % ", ".join("`%s`" % f for f in lem)
    b = getattr(s, "BOUNDED", [])
    if b: out += "*Bounded only (harness, never counted as proved):* %s.\n" % ", ".join("`%s`" % f for f in b)
rows = []
for d in sorted(glob.glob(R + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s (needs: %s) | %s |" % (os.path.basename(d), m["what_it_breaks"], m["needs"], m["property"]))
out += open(R + "/tools/design_tail.md").read().replace("@CATCHES@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(out)
