#!/usr/bin/env python3
"""plant.py SPEC.py: makes seeded/<id>/ from edits, after confirming them in a scratch copy.

SPEC.py defines BUGS: a list of dicts id, property, edits [(file, old, new)], needs, breaks,
demo (Python source; `convert` is there; it exits non-zero or raises on the broken code)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/mathml_to_latex/"
DEMO_SH = """#!/bin/bash
# Runs in the repository; exit 0: the property holds here.
export PYTHONDONTWRITEBYTECODE=1
exec python3 "$(dirname "$0")/demo.py"
"""
DEMO_PY = '''import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
from mathml_to_latex.converter import MathMLToLaTeX

convert = MathMLToLaTeX.convert


def result(doc):
    try:
        return convert(doc)
    except Exception as e:
        return type(e).__name__


def check(doc, expected):
    got = result(doc)
    if got != expected:
        sys.exit(f"{doc!r}: got {got!r}, expected {expected!r}")


'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=300, **kw)


def plant(b):
    tmp = tempfile.mkdtemp(prefix="plant-")
    rep = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", rep, symlinks=True)
        base = run(["git", "rev-list", "--max-parents=0", "HEAD"], rep).stdout.strip()
        for f, old, new in b["edits"]:
            p = os.path.join(rep, SRC + f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} matches of {old[:60]!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = run(["git", "diff"], rep).stdout
        mine = {s.split()[0] for s in run(["git", "log", "--format=%H", f"{base}..HEAD"], rep).stdout.splitlines()}
        gone = theirs = 0
        for f in {f for f, _, _ in b["edits"]}:
            blame = [s.split()[0] for s in run(["git", "blame", "-l", "-s", "--root", "HEAD", "--", SRC + f], rep).stdout.splitlines()]
            at = 0
            for s in run(["git", "diff", "-U0", "--", SRC + f], rep).stdout.splitlines():
                if s.startswith("@@"):
                    at = int(s.split()[1].split(",")[0][1:]) - 1
                elif s.startswith("-") and not s.startswith("---"):
                    if s[1:].strip():
                        gone += 1
                        theirs += blame[at] not in mine and not s[1:].strip().startswith("#")
                    at += 1
        note = f" (changes {gone - theirs} lines of fixes)" if gone > theirs else ""
        if gone and not theirs:
            return "changes no line of the original repository"
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w", encoding="utf-8").write(DEMO_PY + b["demo"].strip("\n") + "\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        ok = run(["bash", d + "/demo.sh"], "/repo")
        if ok.returncode:
            return "demo fails on the unchanged tree: " + (ok.stdout + ok.stderr)[-500:]
        bad = run(["bash", d + "/demo.sh"], rep)
        if not bad.returncode:
            return "demo passes with the change"
        t = run(["python3", "-B", "-m", "unittest", "discover", "tests"], rep, env={**os.environ, "PYTHONPATH": rep + "/src:" + rep})
        if t.returncode:
            return "tests fail: " + t.stderr[-900:]
        dest = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        open(os.path.join(dest, "patch.diff"), "w", encoding="utf-8").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(dest, "meta.json"), "w"), indent=1)
        return "planted" + note + ": " + ((bad.stdout + bad.stderr).strip().splitlines() or ["demo exits %d" % bad.returncode])[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
        print(b["id"], plant(b), flush=True)
