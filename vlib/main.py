import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

import numpy as np  # noqa: F401  (import before forking)

from . import harness
from .harness import VERIF, run_case, worker, new_stats


# another folder only while surveying mutants (tools/mutate.py)
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scenario", action="append")
    ap.add_argument("--case", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import zquantum.core

    src = os.path.realpath(list(zquantum.core.__path__)[0])
    if not src.startswith(os.path.realpath(os.environ.get("VERIF_REPO") or "/repo") + "/src/python"):
        print(f"ERROR: zquantum.core imported from {src}, not from /repo", flush=True)
        return 2
    mod = importlib.import_module("checks." + a.prop)
    check = mod.CHECK
    known = {k["mechanism"]: k for k in load_known() if k["property"] == a.prop and k["status"] == "known"}

    tmp = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    try:
        if a.replay or a.case is not None:
            if a.replay:
                with open(a.replay) as f:
                    r = json.load(f)
            else:
                r = dict(scenario=a.scenario[0], idx=a.case, seed=a.seed, tier=a.tier)
            v = run_case(check, r["scenario"], r["idx"], r["seed"], r["tier"], new_stats())
            for x in v:
                print(json.dumps(x, indent=1)[:6000].replace("\\n", "\n"))
            print("replay:", "VIOLATED" if v else "held")
            return 1 if v else 0
        return run(a, check, known, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, check, known, tmp, t0):
    nw = max(1, a.workers)
    budget = 420 if a.tier == "quick" else int(os.environ.get("VERIF_BUDGET") or 3000)
    pids = []
    sys.stdout.flush()
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                d = os.path.join(tmp, f"w{w}")
                os.mkdir(d)
                import tempfile as tf

                tf.tempdir = d
                os.chdir(d)
                if not a.verbose:
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    errf = os.open(os.path.join(tmp, f"err{w}"), os.O_WRONLY | os.O_CREAT)
                    os.dup2(errf, 2)
                worker(check, a.tier, a.seed, w, nw, a.scenario, os.path.join(tmp, f"out{w}.json"), budget, known)
            except BaseException:
                import traceback

                traceback.print_exc()
                code = 1
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    dead = []
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            dead.append(w)
    events, cases, samples, distinct, timeouts, viol, dur = {}, {}, [], set(), [], [], {}
    truncated, longest = False, 0.0
    for w in range(nw):
        p = os.path.join(tmp, f"out{w}.json")
        if not os.path.exists(p):
            dead.append(w)
            continue
        with open(p) as f:
            o = json.load(f)
        s = o["stats"]
        for k, v in s["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in s["cases"].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in s["durations"].items():
            dur[k] = dur.get(k, 0) + v
        for k, v in s["samples"].items():
            for x in v:
                if sum(1 for y in samples if y["scenario"] == k) < 2:
                    samples.append(dict(scenario=k, case=x))
        distinct.update(s["distinct"])
        timeouts += s["timeouts"]
        longest = max(longest, s["longest"])
        viol += o["violations"]
        truncated |= o["truncated"]

    # ---- verdict
    new, listed = [], {}
    for v in viol:
        if v["mechanism"] in known:
            listed.setdefault(v["mechanism"], v)
        else:
            new.append(v)
    seen = {}
    for v in sorted(new, key=lambda v: (v["scenario"], v["what"], v["idx"])):
        seen.setdefault((v["scenario"], v["mechanism"] or v["what"]), v)
    missing = []
    for name, (_, _, needs) in check.scenarios.items():
        if a.scenario and name not in a.scenario:
            continue
        if not cases.get(name):
            missing.append(f"scenario {name} never ran")
        missing += [f"monitor event '{k}' never observed" for k in needs if not events.get(k)]
    nv = 0
    for m, v in listed.items():
        print(f"KNOWN-FINDING: property={check.id} {known[m]['what']}")
    rdir = os.path.join(EVIDENCE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(check.id + "-"):
            os.unlink(os.path.join(rdir, old))
    for i, v in enumerate(list(seen.values())[:8]):
        nv += 1
        p = os.path.join(rdir, f"{check.id}-{a.tier}-{i}.json")
        with open(p, "w") as f:
            json.dump(v, f, indent=1)
        print(f"VIOLATION property={check.id} replay={p}")
        print(f"   {v['scenario']}#{v['idx']}: {v['what']} :: {v['detail'][:400]}".replace("\n", " "))
        if v["traceback"]:
            print("   " + v["traceback"].strip().splitlines()[-1][:300])
    n_eval = sum(cases.values())
    ev = dict(
        property=check.id, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=n_eval, distinct_nontrivial=len(distinct), rule=check.rule,
            samples=samples[:24], scenarios=cases,
            monitor_events_total=sum(events.values()), monitor_events=dict(sorted(events.items())),
            cpu_seconds_by_scenario={k: round(v, 2) for k, v in dur.items()},
            truncated_by_time_budget=truncated, longest_case_s=round(longest, 2), timeouts=timeouts, exhaustive=False,
        ),
        assumptions=check.assumptions + [
            "held means: on the executions produced by this run; the oracles are reference models in /verif/vlib and numpy/scipy/sympy primitives",
        ],
        wall_s=round(time.time() - t0, 2), violations=nv,
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, check.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if nv:
        return 1
    if dead or missing or timeouts:
        for w in sorted(set(dead)):
            try:
                with open(os.path.join(tmp, f"err{w}")) as f:
                    print(f"worker {w} died:\n" + f.read()[-2000:])
            except OSError:
                pass
        print(f"INCONCLUSIVE property={check.id}: " + "; ".join(missing + timeouts + [f"worker {w} died" for w in sorted(set(dead))])[:2000])
        return 3
    print(f"{check.id} held on {n_eval} cases, {len(distinct)} distinct non-trivial, "
          f"{sum(events.values())} monitor events, {ev['wall_s']} s" + (" (time budget reached)" if truncated else ""))
    if a.verbose:
        print(json.dumps(ev["coverage"], indent=1)[:5000])
    return 0


if __name__ == "__main__":
    sys.exit(main())
