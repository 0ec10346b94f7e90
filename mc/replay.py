#!/usr/bin/env python3
"""replay.py FILE: runs one recorded violation again, without the explorer (exit 1 if it is still there)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import explore  # noqa: E402
import impl  # noqa: E402


def main():
    with open(sys.argv[1], encoding="utf-8") as f:
        v = json.load(f)
    mod = importlib.import_module("checks." + v["property"].lower())
    impl.load()
    space = next(s for s in mod.spaces(v["tier"]) if s.name == v["space"])
    impl.guard()
    case = space.driver(explore.Chooser(v["path"], space.bound))
    if space.key(case) != v["input"]:
        print("note: the recorded path leads to another input now (the space was changed)")
    out = space.execute(case)
    msg = space.judge(case, out)
    stream = sys.__stdout__ if not hasattr(mod, "fds") else sys.stdout
    print(f"input:   {space.key(case)}\noutcome: {out}\nverdict: {msg or 'as it should be'}", file=stream)
    return 1 if msg else 0


if __name__ == "__main__":
    sys.exit(main())
