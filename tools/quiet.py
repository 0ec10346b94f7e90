#!/usr/bin/env python3
"""quiet.py [refactor ids] [CNN ...]: runs the checks on scratch copies of /repo with the
behaviour-preserving edits of tools/refactors/*.diff; every check has to stay quiet."""
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("C")] or sorted(f[:-5] for f in os.listdir(ROOT + "/tools/refactors"))
props = [a for a in sys.argv[1:] if a.startswith("C")] or [f"C{i:02}" for i in range(1, 27)]
for r in ids:
    tmp = tempfile.mkdtemp(prefix="quiet-")
    try:
        shutil.copytree("/repo", tmp + "/repo", symlinks=True)
        shutil.copytree(ROOT, tmp + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
        p = subprocess.run(["git", "apply", f"{ROOT}/tools/refactors/{r}.diff"], cwd=tmp + "/repo", capture_output=True, text=True)
        if p.returncode:
            print(r, "does not apply", p.stderr)
            continue
        for c in props:
            t = time.time()
            p = subprocess.run(["./check.sh", c, "quick"], cwd=tmp + "/verif", capture_output=True, text=True, timeout=1500, env={**os.environ, "VERIF_REPO": tmp + "/repo"})
            alarm = p.returncode or "VIOLATION" in p.stdout
            print(f"{r:12} {c} {'ALARM' if alarm else 'quiet'} {time.time() - t:.0f}s", flush=True)
            if alarm:
                print("   " + (p.stdout + p.stderr)[-800:].replace("\n", "\n   "), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
