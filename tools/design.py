#!/usr/bin/env python3
"""DESIGN.md = design/head.md + one section per property (catalog.py, design/notes.py, the harness, the last evidence) + planted bugs + design/tail.md"""
import glob, json, os, re, sys
V = "/verif"; sys.path[:0] = [V, V + "/design"]
from catalog import PROPS, NOT_APPLICABLE
from notes import NOTES
out = [open(V + "/design/head.md").read().rstrip(), "", "## Properties, one by one", "",
       "Each entry: the oracle, what is generated, the bounds, what is left out, and the sub-properties with the number of cases of a quick run. "
       "Quick runs take 5 to 15 s of search on 8 cores (plus the build on a changed tree); thorough runs take 25 times the cases and then run libFuzzer over the same sub-properties. "
       "The exact counts of the last run are in evidence/ID.json.", ""]
for p in PROPS:
    src = sorted(glob.glob(f"{V}/harness/{p['id']}.cpp") + glob.glob(f"{V}/harness/{p['id']}_*.cpp"))
    subs = [m for f in src for m in re.findall(r"^PROP\((\w+), *(\d+)", open(f).read(), re.M)]
    o, g, x = NOTES[p["id"]]
    out += [f"### {p['id']} {p['title']}", "", f"*Why tests cannot settle it:* {p['why']}", f"*Oracle:* {o}.", f"*Generated:* {g}.", f"*Left out:* {x}." if x != "-" else "*Left out:* nothing known.",
            "*Sub-properties (quick cases):* " + ", ".join(f"{n} ({int(c):,})" for n, c in subs) + ".", f"*{p['rule'].split(' Cases are drawn')[0]}*", ""]
    out = [l.replace("..", ".") if l.endswith("..") else l for l in out]
if NOT_APPLICABLE: out += ["## Not applicable", ""] + [f"* {p['id']}: {p['reason']}" for p in NOT_APPLICABLE] + [""]
out += ["## Planted bugs (seeded/)", "", "Each compiles, passes the 829 stable tests and has a demonstration that fails with it; all are caught by the quick tier of the property named.", "",
        "| change | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json")); out.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
out += ["", open(V + "/design/tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
