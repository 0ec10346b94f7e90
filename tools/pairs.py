#!/usr/bin/env python3
"""Measures the spaces: which pairs of features of an element each check's quick run meets.
usage: pairs.py run [CNN...]   run the checks with the probe, in a scratch copy
       pairs.py show CNN [n] [kind...]   pairs some other check meets, or that could be, but this one does not, by frequency"""
import collections
import glob
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/probe"


def run(ids):
    for cid in ids:
        copy = f"{OUT}/verif"
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs(copy)
        for k in ("mc", "spec", "check.sh", "known_findings.json", "properties.jsonl", "MANIFEST.json"):
            src = os.path.join(HERE, k)
            (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(copy, k))
        shutil.copy(os.path.join(HERE, "tools", "probe.py"), f"{copy}/mc/probe.py")
        p = f"{copy}/mc/impl.py"
        s = open(p).read().replace("        _cls = MathMLToLaTeX\n", "        _cls = MathMLToLaTeX\n        import probe\n        probe.install()\n")
        open(p, "w").write(s)
        for f in glob.glob(f"{OUT}/{cid}.*"):
            os.remove(f)
        r = subprocess.run(["bash", "check.sh", cid, "quick"], cwd=copy, env=dict(os.environ, PROBE_OUT=f"{OUT}/{cid}.raw"), capture_output=True, text=True, errors="replace")
        seen = set()
        for f in glob.glob(f"{OUT}/{cid}.raw.*"):
            with open(f, errors="replace") as h:
                seen.update(line.rstrip("\n") for line in h)
            os.remove(f)
        with open(f"{OUT}/{cid}.pairs", "w") as h:
            h.write("\n".join(sorted(seen)))
        print(cid, r.returncode, len(seen), r.stdout.splitlines()[-1:], flush=True)
        shutil.rmtree(copy)


def show(cid, n=60, kinds=()):
    """Grouped: for (kind, feature, feature) of other checks' pairs that this check lacks."""
    load = lambda c: set(map(eval, open(f"{OUT}/{c}.pairs")))  # noqa: E731
    mine = load(cid)
    union = collections.Counter()
    for f in glob.glob(f"{OUT}/C*.pairs"):
        c = os.path.basename(f)[:3]
        if c != cid:
            union.update(load(c))
    miss = [(v, k) for k, v in union.items() if k not in mine and v >= 3 and (not kinds or k[0] in kinds)]
    print(len(mine), "met,", len(miss), "met by at least three others only")
    groups = collections.defaultdict(list)
    for v, k in miss:
        groups[(k[0], k[1][0], k[2][0])].append((k[1][1], k[2][1]))
    for g, vs in sorted(groups.items(), key=lambda x: -len(x[1]))[:n]:
        print(len(vs), g, vs[:6])


if __name__ == "__main__":
    if sys.argv[1] == "run":
        run(sys.argv[2:] or [f"C{i:02d}" for i in range(1, 17)] + ["C24"])
    else:
        show(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 60, sys.argv[4:])
