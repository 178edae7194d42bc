#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/harnesses.json.
Run it after editing; the outputs are committed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, H, NA = {}, {}, []

def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                 why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: P[id]["anchors"]["observe_at"] = observe
    P[id]["_note"] = note

def har(name, bounds, thorough="", outside="", reach=(), **kw):
    d = dict(bounds=bounds, thorough=thorough, outside=outside, reach=list(reach))
    d.update(kw)
    H["H_" + name] = d

def skip(*names):
    for n in names: H["H_" + n] = dict(skip=True, bounds="", reach=[])

OUT = "larger grammars and longer inputs"
AR = ["accept", "reject"]
# grammar/input families shared by several properties: (suffix, quick, thorough)
FAM = {
 "seq": ("one rule, every arrangement of <=3 leaves (\"a\", \"b\", \"\", the rule itself) in alternatives and sequences with <=1 repetition out of 8 kinds; inputs of <=3 letters", "as quick with <=2 repetitions"),
 "nest": ("one rule, <=2 leaves, <=2 nested groups/options, <=1 repetition out of 2 kinds, self reference; inputs of <=3 letters", "<=3 leaves and 8 kinds of repetition"),
 "rep2": ("one non-recursive rule, <=2 leaves, <=2 repetitions out of 5 kinds, possibly nested through a group/option; inputs of <=3 letters", "<=3 repetitions out of 8 kinds"),
 "pair": ("two mutually referring rules of <=2 leaves, a group/option in the first; inputs of <=3 letters", "3+2 leaves, groups in both, one repetition"),
 "trio": ("three mutually referring rules of <=2 leaves each; inputs of <=3 letters", "as quick with one optional repetition per rule"),
 "mix": ("one rule of <=3 slots, split into alternatives anywhere, each slot one of 7 (letter, star, option, self, rule, exactly-two, ambiguous group), rules s and t one of 5 and 3 definitions (nullable, recursive, chained); inputs of <=3 letters", "<=4 slots out of 10"),
 "tmpl": ("r = X Y Z / W with X one of 7 (mostly nullable) shapes, Y one of 5 (recursive), Z and W one of 4, rules s and t one of 5 and 3 definitions; inputs of <=3 letters", "both orders of the alternatives, inputs of <=4 letters"),
 "long": ("bounds of a repetition out of 0,1,9,10,15,16,17,31,32,33 or unbounded, then an optional letter; inputs of 14 lengths up to 34 with two symbolic letters", "all lengths up to 53"),
 "deep": ("chains of up to 23 rules, ends wrapped in groups or options, recursive at the bottom; inputs of <=3 letters", ""),
 "large": ("one rule, <=2 leaves, <=2 repetitions with minima/maxima 3..9, <=1 group/option; inputs of <=2 letters", "inputs of <=3 letters"),
 "count": ("repetition bounds 0..6 / 0..6 or unbounded, of a letter, an ambiguous group, an option or a rule, then an optional letter; inputs of <=5 letters", "inputs of <=6 letters"),
 "charval": ("every printable quoted string of <=2 characters, case-sensitive or not; every input of <=3 octets", ""),
 "twochar": ("two one-character quoted strings, each case-sensitive or not, bare, grouped, optional or repeated, in sequence or as alternatives; every 7-bit input of 2 octets", ""),
 "numval": ("every numeric terminal: bin/dec/hex, range or series of <=2 values, numerals of <=2 digits; every input of <=2 octets", "numerals of <=3 digits, inputs of <=3 octets"),
 "edge": ("ranges between any two of 10 edges of the encoding (up to beyond Unicode and 32 bits), series of an edge and a letter, 5 characters with unusual case variants; alone or after a letter; every input of <=2 octets (<=3 for characters)", "every input of <=4 octets"),
 "real": ("10 grammars of ordinary size (dates, addresses, URIs, keywords, CSV, non-ASCII text, JSON-like nesting, left-recursive expressions, dangling else) and a text of each with any one octet replaced or inserted (any octet) or removed, or cut off anywhere", ""),
 "gaps": ("a repetition of at least 2..4, of at most 1 or 2 more or unbounded, of any non-empty set of the 10 substrings of a word of 4 letters; that word", "the 15 substrings of a word of 5 letters"),
 "ring": ("2..4 rules referring to each other from the left, one with a base, one with a second way round, one reference changed in 3 ways (behind an option, bare, in a group); inputs of <=4 letters", "inputs of <=5 letters"),
 "reuse": ("a rule used from two places at one position in 4 arrangements, beginning with one of 8 parts that end in several ways, then one of 5 parts, with or without a second alternative, 3 definitions of an auxiliary rule; inputs of <=4 letters", ""),
 "core": ("every core rule under 4 spellings, as root or through a rule; every input of <=3 octets", ""),
}
def fam(pid, names, reach, tonly=()):
    for n in names:
        q, t = FAM[n]
        r = reach
        har(f"{pid}_{n}", q, t, OUT, r, **({"thorough_only": True} if n in tonly else {}))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P.values():
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
na = {x["property"] for x in NA}
checks = []
for id, p in P.items():
    if id in na: continue
    checks.append(dict(property=id, quick_cmd=f"./run.sh {id} quick", thorough_cmd=f"./run.sh {id} thorough",
        technique="symbolic execution of the Go SSA of /repo with z3 deciding path feasibility and assertions (bounded)",
        level="model_checking",
        level_note=p["_note"] or "All inputs within the bounds of the harnesses listed in the evidence are decided; the oracle is an independent reference semantics. Trusted: the engine's interpretation of go/ssa (validated on sampled paths against native runs), z3, the reference. Nothing is claimed beyond the bounds."))
json.dump(dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=NA,
    notes="No hooks in /repo: harnesses call the public API; fix: commits are listed in known_findings.txt."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump(dict(harnesses=H, level={}), open(os.path.join(ROOT, "harness", "harnesses.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks", len(H), "harnesses")
