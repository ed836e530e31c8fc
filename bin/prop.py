#!/usr/bin/env python3
"""developer aid: prop.py < text : write meta/<ID>.json files from a compact form.
Blocks separated by blank lines; fields 'id:', 'title:', 'st:', 'over:', 'q:', 'why:', 'files:', 'mech: name @ where; ...', 'note:' or 'na:'"""
import sys, json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
for blk in sys.stdin.read().strip().split("\n\n"):
    d, k = {}, None
    for l in blk.splitlines():
        a, s, b = l.partition(":")
        if s and a in ("id", "title", "st", "over", "q", "why", "files", "mech", "note", "na", "observe"):
            k = a; d[k] = b.strip()
        else: d[k] += " " + l.strip()
    m = {"id": d["id"], "title": d["title"], "statement": d["st"],
         "quantifier": {"over": d.get("over", "inputs").split(), "text": d["q"]}, "why_tests_cant": d["why"],
         "anchors": {"files": d["files"].split(), "mechanism": [dict(zip(("name", "where"), [y.strip() for y in x.split("@")])) for x in d["mech"].split(";")],
                     "observe_at": [x.strip() for x in d.get("observe", "").split(";") if x.strip()] or ["instruction results and account state"],
                     "hook_needed": "cfg(mango_verif) module include"}}
    if "na" in d: m["not_applicable"] = d["na"]
    else: m["check"] = {"note": d["note"]}
    (V / "meta" / (d["id"] + ".json")).write_text(json.dumps(m, indent=1) + "\n")
