#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: explores the property's spaces on /repo's working tree."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import explore  # noqa: E402
import impl  # noqa: E402

WORKERS = 8
MAX_VIOLATIONS = 5  # per worker and space
BUDGET = {"quick": 600, "thorough": 6 * 3600}


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"]]


def work(space, tasks, conn, deadline, known):
    try:
        impl.guard()
        stats = dict(states=0, transitions=0, executions=0, skipped=0, nontrivial=0)
        keys, outs, samples, bad, listed = set(), set(), [], [], {}
        capped = False

        def visit(case, path):
            out = space.execute(case)
            k = space.key(case)
            keys.add(hash(k))
            outs.add(hash(str(out)))
            if space.nontrivial(case):
                stats["nontrivial"] += 1
            n = stats["executions"]
            if n & (n - 1) == 0 and n >= 64 and len(samples) < 4:
                samples.append({"input": k[:400], "outcome": list(map(str, out))[:3]})
            msg = space.judge(case, out)
            if msg is not None:
                for f in known:
                    if f["space"] == space.name and f["input"] == k and f["outcome"] == list(out):
                        listed[k] = f["what"]
                        break
                else:
                    bad.append({"space": space.name, "path": list(path), "input": k,
                                "case": json.loads(json.dumps(case, default=repr)), "what": msg})
                    if len(bad) >= MAX_VIOLATIONS:
                        return False
            if time.time() > deadline:
                nonlocal capped
                capped = True
                return False
            return True

        for p in tasks:
            if not explore.explore(space.driver, p, space.bound, visit, stats):
                break
        conn.send((stats, keys, outs, samples, bad, listed, capped))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    conn.close()


def run_space(space, deadline, known, workers):
    tasks, nodes = explore.split(space.driver, space.bound, space.split)
    random.Random(1).shuffle(tasks)  # balance only; every task is run
    workers = 1 if space.serial else min(workers, len(tasks))
    procs = []
    for w in range(workers):
        r, s = mp.Pipe(False)
        q = mp.Process(target=work, args=(space, tasks[w::workers], s, deadline, known))
        q.start()
        s.close()
        procs.append((q, r))
    total = dict(states=nodes, transitions=max(nodes + len(tasks) - 1, 0), executions=0, skipped=0, nontrivial=0)
    keys, outs, samples, bad, listed, capped = set(), set(), [], [], {}, False
    for q, r in procs:
        try:
            res = r.recv()
        except EOFError:
            q.join()
            raise SystemExit(f"worker of {space.name} died (exit code {q.exitcode})")
        q.join()
        if res[0] == "error":
            print(res[1], file=sys.stderr)
            raise SystemExit(f"worker of {space.name} failed")
        st, k, o, sm, b, ls, cp = res
        for n in st:
            total[n] += st[n]
        keys |= k
        outs |= o
        samples += sm
        bad += b
        listed.update(ls)
        capped |= cp
    total.update(distinct_inputs=len(keys), distinct_outcomes=len(outs), tasks=len(tasks))
    return total, samples, bad, listed, capped


def write_replay(prop, tier, v):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps([v["space"], v["input"]]).encode()).hexdigest()[:10]
    path = os.path.join("replays", f"{prop}-{h}.json")
    with open(os.path.join(ROOT, path), "w", encoding="utf-8") as f:
        json.dump({"property": prop, "tier": tier, **v}, f, indent=1, ensure_ascii=True, default=str)
    return path


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    impl.load()
    known = [k for k in known_findings() if k["property"] == prop]
    deadline = t0 + BUDGET[tier]
    spaces = mod.spaces(tier)
    only = os.environ.get("VERIF_SPACE")
    bad, listed, per, samples, capped = [], {}, [], [], False
    for sp in spaces:
        if only and sp.name != only:
            continue
        t = time.time()
        total, sm, b, ls, cp = run_space(sp, deadline, known, WORKERS)
        per.append({"space": sp.name, "rule": sp.rule, "deviation_bound": sp.bound if sp.bound < 10**9 else None,
                    "complete": not cp and not b, "wall_s": round(time.time() - t, 2), **total})
        samples += [{"space": sp.name, **s} for s in sm[:2]]
        bad += b
        listed.update(ls)
        capped |= cp
        print(f"{prop} {sp.name}: {total['executions']} executions, {total['states']} states, "
              f"{total['distinct_inputs']} inputs, {total['distinct_outcomes']} outcomes, "
              f"{time.time() - t:.1f} s" + (" CAPPED" if cp else ""), flush=True)
        if b:
            break
    tot = {k: sum(p[k] for p in per) for k in
           ("states", "transitions", "executions", "nontrivial", "distinct_inputs", "distinct_outcomes")}
    level = getattr(mod, "LEVEL", "model_checking")
    cov = {"states": tot["states"], "transitions": tot["transitions"],
           "traces_validated_against_impl": tot["executions"],
           "distinct_inputs": tot["distinct_inputs"], "distinct_outcomes": tot["distinct_outcomes"],
           "rule": mod.RULE, "exhaustive": not capped and not bad, "spaces": per,
           "samples": samples or [{"note": "no execution completed"}]}
    cov.update(getattr(mod, "EXTRA", lambda: {})())
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
                   "violations": len(bad)}, f, indent=1, ensure_ascii=True)
    for what in listed.values():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if bad:
        v = min(bad, key=lambda v: (len(v["input"]), v["input"]))
        path = write_replay(prop, tier, v)
        print(f"{prop} {v['space']}: {v['what']}\n  input: {v['input']!r:.1500}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} held on everything explored ({tier}, {time.time() - t0:.1f} s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
