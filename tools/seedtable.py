#!/usr/bin/env python3
"""Print the DESIGN.md table of planted bugs from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
print("| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
for d in sorted(root.iterdir(), key=lambda d: (json.load(open(d/"meta.json"))["property"], d.name)):
    m = json.load(open(d/"meta.json"))
    f = lambda s: " ".join(s.split()).replace("|", "\\|")
    print(f"| {d.name} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {m.get('caught_by', m['property'] + ' quick')} |")
