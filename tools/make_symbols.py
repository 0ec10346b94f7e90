#!/usr/bin/env python3
"""Wrote /verif/spec/symbols.json: the published dictionary per token kind, fully resolved.
Run once on the repaired tree (commit 'fix: keep the letter ...'); the result was reviewed against
Unicode (C10) and the 525 pairs of the test suite, and is from then on the specification."""
import json, sys
sys.path.insert(0, "/repo/src"); sys.dont_write_bytecode = True
from mathml_to_latex import syntax as s
from mathml_to_latex.el_to_tex.usecases import MI, MO, MN
from mathml_to_latex.el_to_tex.protocols import GenericMathMLElement
keys = set()
for n in dir(s):
    t = getattr(s, n)
    if isinstance(t, dict) and not n.startswith("__"):
        keys |= {" ".join(k.split()) for k in t}
keys |= {chr(c) for c in range(0x110000) if not 0xD800 <= c < 0xE000}
keys.discard("")
out = {}
for kind, cls in (("mi", MI), ("mo", MO), ("mn", MN)):
    d = {}
    for k in sorted(keys):
        if k.split() != [k]: continue
        r = cls(GenericMathMLElement(kind, k, [], {})).convert()
        if r != k: d[k] = r
    out[kind] = d
    print(kind, len(d), sum(len(k) > 1 for k in d))
json.dump(out, open("/verif/spec/symbols.json", "w"), ensure_ascii=True, indent=0, sort_keys=True)
