#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREES = "bounded exhaustive exploration of the real converter over all element trees of the stated spaces, each execution compared with an independent reference model"
T = {
    "C01": TREES + "; leaves counted and ordered", "C09": "exhaustive exploration of the real converter over every Unicode code point and every dictionary symbol, against the published dictionary",
    "C10": "exhaustive exploration of the real converter over every decomposable Unicode character, against the Unicode character database",
    "C11": "exhaustive exploration of the real converter over variants x symbols x contexts, against the reference model", "C12": "exhaustive exploration of the real converter over all short texts, against the reference model",
    "C13": "exhaustive exploration of the real converter over child counts x contexts, against the reference model", "C14": "exhaustive exploration of the real converter over the element-tree spaces, each output checked by an independent LaTeX lexer",
    "C15": "deviation-bounded exhaustive exploration of layouts on the real converter, against the reference model", "C16": "deviation-bounded exhaustive exploration of XML spellings on the real converter, against the reference model",
    "C17": "deviation-bounded exhaustive placement of damaged attributes, driven through the real parse/repair/retry loop, against the reference model",
    "C18": "exhaustive fault enumeration (all cut points, edits and markup faults) through the real parse/repair/retry loop, against an independent parser",
    "C19": "stateful exhaustive exploration of conversion histories on the real code, each in a forked fresh process", "C20": "stateless exploration of all schedules of real threads under a controlled scheduler within a preemption bound",
    "C21": "bounded exhaustive exploration of document arrangements on the real converter, against the reference model", "C22": "exhaustive exploration of document families on the real code with counted steps (work may not outgrow the bound)",
    "C23": "exhaustive exploration of documents on the real code under an effect monitor (audit events, streams, settings, standard library state, canary)",
    "C25": "exhaustive exploration of configurations and callers (every combination run on the real code in a process of its own), outcomes compared with those of an ordinary process",
    "C26": "bounded exhaustive exploration of strings, element arrangements, attribute values and all of Unicode on the real converter, outcomes classified by an independent parse", "C24": "bounded exhaustive metamorphic exploration of the real converter (composition in every slot)",
}
NOTE = "Every execution inside the bounds named in the evidence file was run on the code of the working tree; nothing is sampled. Beyond the bounds nothing is claimed. Trusted: CPython, expat, the explorer and "
N = {
    "C10": "Python's unicodedata.", "C14": "the lexer of the check.", "C18": "expat as the judge of well-formedness, and the reference model for what is well formed.", "C19": "fork as a fresh process.",
    "C20": "the scheduler; preemptions beyond the bound and inside C code are not explored.", "C22": "the tracing counters; work inside single C calls is bounded only by the CPU limit.", "C23": "the interpreter's audit events.",
    "C25": "the installed interpreter.", "C26": "expat as the judge of well-formedness.",
    "C24": "nothing else (the implementation is compared with itself).",
}


def main():
    ids = [json.loads(s)["id"] for s in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
    checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + T.get(i, TREES),
               "level": "model_checking", "level_note": NOTE + N.get(i, "the reference model (mc/ref.py and spec/symbols.json).")} for i in ids]
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
                   "notes": "Pure Python: a check imports /repo/src as it stands, so nothing is built and there are no hooks in /repo. known_findings.json lists the recorded findings and the fixes."}, f, indent=1)
        f.write("\n")


main()
