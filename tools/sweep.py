#!/usr/bin/env python3
"""sweep.py [-a] [ids...]: runs each planted bug's check (-a: every check) on a scratch copy
with the bug, and prints whether it is caught."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"C{i:02}" for i in range(1, 27)]


def one(bug, prop):
    tmp = tempfile.mkdtemp(prefix="sweep-")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        shutil.copytree(ROOT, tmp + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
        p = subprocess.run(["git", "apply", f"{ROOT}/seeded/{bug}/patch.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if p.returncode:
            return bug, prop, "patch does not apply", 0, p.stderr
        t = time.time()
        p = subprocess.run(["./check.sh", prop, "quick"], cwd=tmp + "/verif", capture_output=True, text=True,
                           timeout=1500, env={**os.environ, "VERIF_REPO": tmp + "/repo", "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        lines = [s for s in p.stdout.splitlines() if s.startswith("VIOLATION")]
        caught = p.returncode == 1 and any(f"property={prop}" in s for s in lines)
        return bug, prop, "caught" if caught else f"MISSED rc={p.returncode}" if p.returncode else "MISSED", time.time() - t, (p.stdout + p.stderr)[-600:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


args = [a for a in sys.argv[1:] if a != "-a"]
bugs = args or sorted(os.listdir(ROOT + "/seeded"))
jobs = []
for b in bugs:
    own = json.load(open(f"{ROOT}/seeded/{b}/meta.json"))["property"]
    jobs += [(b, p) for p in (ALL if "-a" in sys.argv else [own])]
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SWEEP_JOBS", "4"))) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, *j) for j in jobs]):
        b, p, r, t, out = f.result()
        print(f"{b:26} {p} {r} {t:.0f}s", flush=True)
        if r.startswith("MISSED") and "-a" not in sys.argv or "rc=" in r:
            print("   " + out.replace("\n", "\n   "), flush=True)
