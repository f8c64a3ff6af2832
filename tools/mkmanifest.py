#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]

DOC = ("TLA+ specification DocEdit/Doc checked by TLC; behaviours of the specification replayed in the real code, every result and "
       "the whole document compared after each step")
CH = {}


def add(pid, tech, level, note):
    CH[pid] = {"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid, "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
               "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": level, "level_note": note}


base = ("All programs up to the stated depth over small schemas plus seeded random programs over larger ones; "
        "assumes the driver's dump reads every member (it reads each one through several accessors). ")
add("D01", DOC, "model_checking", base + "Values are taken from a pool of boundary values per type.")
add("D02", DOC, "model_checking", base + "Up to four copies; every live copy and the original are compared after every step.")
add("D03", DOC, "model_checking", base + "All sequences of three list edits on three items, four on an empty list; all read views compared.")
add("D04", DOC, "model_checking", base + "Also after emptying, copying and reloading lists.")
add("D05", DOC, "model_checking", base)
add("D06", DOC, "model_checking", base + "Every member kind x value kind x nullability exhaustively.")

NA = {}
if os.path.exists(V + "/tools/manifest_more.py"):
    exec(open(V + "/tools/manifest_more.py").read())

m = {"version": 1, "setup_cmd": "bash harness/build.sh", "checks": [CH[i] for i in ids if i in CH],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check yet")} for i in ids if i not in CH],
     "notes": "Specifications in spec/, replay driver in harness/, checks in checks/ and lib/. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
