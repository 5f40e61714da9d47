"""Driver of one check: generates the cases, runs them in workers, judges, writes the evidence."""

from __future__ import annotations

import argparse
import importlib
import json
import os
import pathlib
import queue
import random
import selectors
import subprocess
import sys
import threading
import time

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import core  # noqa: E402

VERIF = HERE.parent
EVIDENCE = VERIF / "evidence"


def load_known(prop: str) -> dict[str, str]:
    known = {}
    f = VERIF / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" | ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv.get("property") == prop:
                    known[kv["key"]] = text
    return known


class Worker:
    def __init__(self, args, scratch, i, log):
        self.scratch = scratch / f"w{i}"
        self.scratch.mkdir(exist_ok=True)
        self.args, self.i, self.log = args, i, log
        self.p = None

    def start(self):
        env = core.base_env(self.scratch)
        env.update(getattr(self.args.mod, "ENV", {}))
        self.p = subprocess.Popen(
            [sys.executable, "-P", str(HERE / "worker.py"), self.args.prop, str(self.args.seed), self.args.tier, str(self.scratch)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env, cwd=str(self.scratch), text=True,
            start_new_session=True)
        return self._read(300) == "READY"

    def _read(self, timeout):
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        if not sel.select(timeout):
            return "TIMEOUT"
        return self.p.stdout.readline().strip()

    def run(self, case, timeout):
        try:
            self.p.stdin.write(json.dumps(case) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return "DEAD"
        r = self._read(timeout)
        if r == "TIMEOUT":
            return r
        return json.loads(r) if r else "DEAD"

    def stop(self):
        if self.p is None:
            return
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(self.p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the cases of this kind")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "7")))
    args = ap.parse_args()
    t0 = time.time()
    prop = args.prop
    args.mod = mod = importlib.import_module(prop.lower())
    rng = random.Random(f"{prop}-{args.seed}-{args.tier}")
    if args.replay:
        rep = json.loads(pathlib.Path(args.replay).read_text())
        args.seed, args.tier = rep["seed"], rep["tier"]
        cases = [rep["case"]]
    else:
        cases = mod.cases(args.tier, rng)
        for i, c in enumerate(cases):
            c["#"] = i
    if args.only:
        cases = [c for c in cases if c["kind"] == args.only]
    case_timeout = getattr(mod, "CASE_TIMEOUT", {"quick": 240, "thorough": 1800})[args.tier]
    budget = getattr(mod, "BUDGET", {"quick": 540, "thorough": 6 * 3600})[args.tier]
    n = min(args.j, getattr(mod, "JOBS", 7), len(cases))
    scratch = core.make_scratch()
    log_path = scratch / "log.txt"
    total = {"counts": {}, "keys": set(), "violations": [], "skips": [], "samples": [], "kinds": {}}
    problems: list[str] = []
    lock = threading.Lock()
    q: queue.Queue = queue.Queue()
    # long cases first, as declared by the check
    for c in sorted(cases, key=lambda c: -c.get("w", 0)):
        q.put(c)

    def merge(case, r):
        with lock:
            for k, v in r["counts"].items():
                total["counts"][k] = total["counts"].get(k, 0) + v
            total["keys"].update(r["keys"])
            total["violations"] += r["violations"]
            total["skips"] += [f"{case['kind']}: {s}" for s in r["skips"]]
            total["samples"] += r["samples"]
            total["kinds"][case["kind"]] = total["kinds"].get(case["kind"], 0) + 1

    def loop(i, log):
        w = Worker(args, scratch, i, log)
        if not w.start():
            with lock:
                problems.append("a worker could not start")
            w.stop()
            return
        while True:
            try:
                case = q.get_nowait()
            except queue.Empty:
                break
            if time.time() - t0 > budget:
                with lock:
                    problems.append(f"time budget used up before case {case['#']} ({case['kind']})")
                break
            tc = time.time()
            r = w.run(case, case_timeout)
            if os.environ.get("VERIF_TIMES"):
                print(f"{time.time() - tc:6.2f}s {json.dumps(case)[:150]}", file=sys.stderr)
            if isinstance(r, dict):
                merge(case, r)
                continue
            if r == "DEAD":
                w.p.wait()
                rc = w.p.returncode
                with lock:
                    if rc in (-9, -15):
                        problems.append(f"worker killed (signal {-rc}) in case {case['#']} ({case['kind']})")
                    else:
                        total["violations"].append({"monitor": "process-survives", "known": None, "case": case,
                                                    "msg": f"the process running the case died with status {rc}"})
            else:
                with lock:
                    problems.append(f"case {case['#']} ({case['kind']}) did not finish in {case_timeout} s")
            w.stop()
            w = Worker(args, scratch, f"{i}r{case['#']}", log)
            if not w.start():
                break
        w.stop()

    with log_path.open("w") as log:
        ts = [threading.Thread(target=loop, args=(i, log)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if (problems or os.environ.get("VERIF_DEBUG")) and log_path.exists():
        tail = log_path.read_text(errors="replace")[-3000:]
        print(tail, file=sys.stderr)
    core.drop_scratch(scratch)

    # ------------------------------------------------------------------ verdict
    known = load_known(prop)
    fresh, seen_known = [], {}
    for v in total["violations"]:
        if v["known"] and v["known"] in known:
            seen_known[v["known"]] = seen_known.get(v["known"], 0) + 1
        else:
            fresh.append(v)
    EVIDENCE.mkdir(exist_ok=True)
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    required = dict(getattr(mod, "REQUIRED", {}))
    missing = [f"{m} ({total['counts'].get(m, 0)} of {k})" for m, k in required.items() if total["counts"].get(m, 0) < k]
    partial = bool(args.replay or args.only)
    for s in sorted(set(total["skips"]))[:10]:
        print(f"note: {s}")
    for s in problems[:10]:
        print(f"note: {s}")
    evaluations = sum(v for k, v in total["counts"].items() if k != "cases" and not k.startswith("obs:"))
    # private names that this tree does not have any more: what they gave is not observed, the rest is
    reduced = bool(missing and evaluations and any(": mismatch: " in x for x in total["skips"]))
    inconclusive = bool(not fresh and not partial and ((missing and not reduced) or problems))
    wall = round(time.time() - t0, 2)
    if not args.replay:
        shown = sorted(total["samples"])
        random.Random(0).shuffle(shown)
        ev = {
            "property": prop, "tier": args.tier, "seed": args.seed, "level": getattr(mod, "LEVEL", "exploration"),
            "wall_s": wall, "violations": len(fresh),
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(total["keys"]), "rule": mod.RULE,
                "samples": shown[:8] or sorted(total["keys"])[:8],
                "cases": len(cases), "cases_by_kind": total["kinds"],
                "monitor_evaluations": dict(sorted((k, v) for k, v in total["counts"].items() if not k.startswith("obs:"))),
                "observed": dict(sorted((k[4:], v) for k, v in total["counts"].items() if k.startswith("obs:"))),
                "known_findings": seen_known, "skipped": sorted(set(total["skips"]))[:20],
                "verdict": "violated" if fresh else "inconclusive" if inconclusive else "held on what was observed, reduced by names that are gone" if reduced else "held on what was observed",
            },
        }
        ev["coverage"].update(getattr(mod, "EXTRA", lambda c: {})(total["counts"]))
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    if fresh:
        first = fresh[0]
        path = EVIDENCE / f"{prop}.replay.json"
        if args.replay:
            path = pathlib.Path(args.replay)
        else:
            path.write_text(json.dumps({"property": prop, "seed": args.seed, "tier": args.tier, "case": first["case"],
                                        "violations": fresh[:50]}, indent=1, default=str) + "\n")
        print(f"{len(fresh)} violations; monitors: {sorted({v['monitor'] for v in fresh})}")
        for v in fresh[:5]:
            print(f"  [{v['monitor']}] {v['msg'][:700]}\n      case {json.dumps(v['case'], default=str)[:300]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop}: {evaluations} evaluations, {len(total['keys'])} distinct non-trivial, {len(cases)} cases, {wall} s")
    if reduced:
        print(f"REDUCED: {missing}")
    if inconclusive:
        print(f"INCONCLUSIVE: {missing} {problems[:3]}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
