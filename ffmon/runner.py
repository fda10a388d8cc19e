"""Run the check of one property: python -m ffmon.runner C01 [--replay FILE].

The case list of a property is a deterministic function of (tier, seed).  It is
cut into shards; every shard is a forked worker that runs its cases in order in
one process (so state left behind by earlier calls is part of the history).
"""

import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# where evidence and replays go; only tools/seed.py points it elsewhere
EVID = os.environ.get("FFMON_EVIDENCE") or os.path.join(HERE, "evidence")
REPO = os.environ.get("FFMON_REPO", "/repo")
WORKERS = int(os.environ.get("FFMON_WORKERS", "8"))


def setup_env():
    scratch = tempfile.mkdtemp(prefix="ffmon.")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.makedirs(os.environ["MPLCONFIGDIR"], exist_ok=True)
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.path.insert(0, os.path.join(REPO, "src"))
    warnings.simplefilter("ignore")
    return scratch


class Result(dict):
    pass


def run_cases(mod, tier, seed, todo, deadline):
    """Run [(idx, spec)] in order in this process; returns a plain dict."""
    import numpy as np

    from . import core

    import ff

    src = os.path.realpath(os.path.join(REPO, "src"))
    if not os.path.realpath(ff.__file__).startswith(src + os.sep):
        raise RuntimeError(f"ff imported from {ff.__file__}, not from {src}")

    ctx = core.Ctx(mod.ID, tier, seed, dict(mod.CONTRACTS))
    ctx.recycle = getattr(mod, "RECYCLE", True)
    ctx.install()
    np.seterr(all="ignore")
    budget = getattr(mod, "CPU_BUDGET", 100.0)

    def on_prof(signum, frame):
        raise core.Overrun()

    signal.signal(signal.SIGPROF, on_prof)
    done, violations, inconclusive, truncated = 0, [], [], 0
    for idx, spec in todo:
        if time.time() > deadline:
            truncated += 1
            continue
        ctx.case = {"idx": idx, "spec": spec}
        ctx.violations = []
        ctx.kinds[spec.get("kind", "case")] += 1
        rng = np.random.default_rng([seed, int(mod.ID[1:]), idx])
        np.random.seed(int(rng.integers(2**31)))
        random.seed(int(rng.integers(2**31)))
        signal.setitimer(signal.ITIMER_PROF, budget)
        try:
            mod.run(ctx, spec, rng)
        except core.Abort:
            pass
        except core.Overrun:
            # CPU time of this thread of control, not wall clock: a loaded
            # machine cannot cause it.  Nominal cases need well under 1/20.
            ctx.violate(f"no result within {budget:.0f} s of CPU time", spec=spec)
        except (MemoryError, KeyboardInterrupt) as e:
            inconclusive.append(f"case {idx}: {type(e).__name__}")
        except Exception as e:  # the workload could not interpret a result
            tb = traceback.extract_tb(e.__traceback__)
            loc = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
            ctx.violate(f"result could not be interpreted: {type(e).__name__}: {e} ({loc})", spec=spec)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            ctx.monitoring = True
            ctx.local.depth = 0
        done += 1
        if ctx.violations:
            violations.extend(ctx.violations)
            if len(violations) >= 3:
                break
    if core.MARGINS is not None:
        with open(os.environ["FFMON_MARGINS"], "a") as fh:
            for k, v in core.MARGINS.items():
                fh.write(json.dumps([mod.ID, k, *v]) + "\n")
    return {
        "done": done,
        "truncated": truncated,
        "violations": violations,
        "findings": ctx.findings,
        "inconclusive": inconclusive,
        "calls": dict(ctx.calls),
        "nested": dict(ctx.nested),
        "evals": dict(ctx.evals),
        "skipped": dict(ctx.skipped),
        "checks": dict(ctx.checks),
        "kinds": dict(ctx.kinds),
        "events": ctx.events,
        "distinct": list(ctx.distinct),
        "samples": ctx.samples,
        "stats": getattr(ctx, "stats", {}),
    }


def worker(conn, modname, tier, seed, todo, deadline):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        mod = importlib.import_module(modname)
        # a directory of its own: what the library writes there is seen (C28) and never lands in /verif or /repo
        os.chdir(tempfile.mkdtemp(prefix="work.", dir=os.path.dirname(os.environ["MPLCONFIGDIR"])))
        out = run_cases(mod, tier, seed, todo, deadline)
    except BaseException:
        out = {"error": traceback.format_exc()}
    conn.send(out)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    scratch = setup_env()
    try:
        return check(a, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(a, t0):
    pid = a.property.upper()
    modname = f"ffmon.props.{pid.lower()}"
    mod = importlib.import_module(modname)
    tier, seed = a.tier, a.seed
    if a.replay:
        rec = json.load(open(a.replay))
        tier, seed = rec["tier"], rec["seed"]
    cases = mod.cases(tier, seed)
    if tier != "quick":  # the thorough tier repeats the random part of the list with fresh draws
        for k in range(1, getattr(mod, "ROUNDS", 8)):
            cases += [c for c in mod.cases(tier, seed + 1000 * k) if c.get("cost", 0) < 1e5]
    cases = list(enumerate(cases))
    if a.list:
        c = collections.Counter(s.get("kind", "case") for _, s in cases)
        print(len(cases), dict(c))
        return 0
    nw = max(1, min(WORKERS, len(cases)))
    # deterministic interleaving, so that every worker sees every kind of case
    order = cases[:]
    random.Random(f"{pid}/{seed}").shuffle(order)
    order.sort(key=lambda c: -c[1].get("cost", 0))  # big ones first
    shards = [order[i::nw] for i in range(nw)]
    for i, s in enumerate(shards):
        random.Random(f"{pid}/{seed}/{i}").shuffle(s)
    if a.replay:
        # re-run the history of the failing worker up to the failing case
        hist = rec["history"]
        byidx = dict(cases)
        shards = [[(i, byidx[i]) for i in hist]]
    wall = 700 if tier == "quick" else float(os.environ.get("FFMON_THOROUGH_S", "1500"))
    deadline = t0 + wall
    try:
        import ff  # noqa: F401  import once, workers are forked
        import scipy.linalg  # noqa: F401
    except BaseException as e:
        print(f"library cannot be imported: {type(e).__name__}: {e}")
        return 2
    fork = mp.get_context("fork")
    procs = []
    for s in shards:
        r, w = fork.Pipe(False)
        p = fork.Process(target=worker, args=(w, modname, tier, seed, s, deadline))
        p.start()
        w.close()
        procs.append((p, r, s))
    results, errors = [], []
    for p, r, s in procs:
        left = deadline + 120 - time.time()
        if r.poll(max(left, 1)):
            try:
                out = r.recv()
            except EOFError:
                p.join(5)
                out = {"error": f"worker died (exit {p.exitcode})"}
        else:
            p.kill()
            out = {"error": "worker watchdog"}
        p.join(10)
        if "error" in out:
            errors.append(out["error"])
        else:
            results.append((out, s))
    agg = {k: collections.Counter() for k in ("calls", "nested", "evals", "skipped", "checks", "kinds")}
    done = events = truncated = 0
    distinct, samples, violations, findings, inconclusive = set(), [], [], [], []
    stats = collections.Counter()
    for out, s in results:
        for k in agg:
            agg[k].update(out[k])
        done += out["done"]
        truncated += out["truncated"]
        events += out["events"]
        distinct.update(out["distinct"])
        samples.extend(out["samples"][:1])
        inconclusive.extend(out["inconclusive"])
        findings.extend(out["findings"])
        stats.update(out["stats"])
        for v in out["violations"]:
            v["history"] = [i for i, _ in s][: [i for i, _ in s].index(v["case"]["idx"]) + 1]
            violations.append(v)
    # known findings: a workload reports them by mechanism; only listed ones are
    # accepted, anything else is a violation
    listed = {}
    for line in open(os.path.join(HERE, "known_findings.jsonl")):
        line = line.strip()
        if line:
            k = json.loads(line)
            if k.get("status") == "known":
                listed[(k["property"], k["mechanism"])] = k["what"]
    shown = set()
    for f in findings:
        key = (pid, f["mechanism"])
        if key in listed:
            if key not in shown:
                shown.add(key)
                print(f"KNOWN-FINDING: property={pid} {listed[key]}")
        else:
            violations.append({"what": f["what"], "witness": {}, "case": f["case"], "events": [], "history": [f["case"]["idx"]]})
    floors = dict(getattr(mod, "FLOORS", {}))
    missed = []
    if not violations and not a.replay:
        have = agg["evals"] + agg["checks"]
        for name in mod.CONTRACTS:
            if name not in floors:
                floors[name] = 1
        for name, need in floors.items():
            if have[name] < need:
                missed.append(f"{name}: {have[name]} < {need}")
    wall_s = round(time.time() - t0, 2)
    os.makedirs(EVID, exist_ok=True)
    if not a.replay:
        coverage = {
            "evaluations": int(sum(agg["evals"].values()) + sum(agg["checks"].values())),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": (samples or ["(no sample)"])[:6],
            "cases_run": done,
            "cases_not_run_for_time": truncated,
            "case_kinds": dict(agg["kinds"]),
            "events_recorded": events,
            "library_calls_observed": dict(agg["calls"]),
            "of_which_nested": dict(agg["nested"]),
            "contract_evaluations": dict(agg["evals"]),
            "contract_precondition_false": dict(agg["skipped"]),
            "workload_oracle_evaluations": dict(agg["checks"]),
            "workers": nw,
            "known_findings_seen": sorted(k[1] for k in shown),
        }
        if stats:
            coverage["observed"] = dict(stats)
        ev = {
            "property": pid,
            "tier": tier if tier in ("quick", "thorough") else "quick",
            "seed": seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": wall_s,
            "violations": len(violations),
        }
        tmp = os.path.join(EVID, f".{pid}.{os.getpid()}")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    if violations:
        v = min(violations, key=lambda v: len(v["history"]))
        path = a.replay
        if not path:
            path = os.path.join(EVID, f"{pid}.replay.json")
            with open(path, "w") as fh:
                json.dump(
                    {
                        "property": pid,
                        "tier": tier,
                        "seed": seed,
                        "history": v["history"],
                        "violation": v,
                        "others": [o["what"] for o in violations if o is not v][:20],
                        "replay_cmd": f"./check.sh {pid} --replay {path}",
                    },
                    fh,
                    indent=1,
                    default=str,
                )
        print(f"{pid}: {v['what']}")
        for k, w in list(v["witness"].items())[:4]:
            print(f"   {k} = {w[:300]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors or inconclusive or missed:
        for e in errors:
            print("error:", e)
        for e in inconclusive:
            print("inconclusive:", e)
        for e in missed:
            print("monitor not reached often enough:", e)
        return 2
    print(
        f"{pid}: held on {done} cases, {events} events, "
        f"{sum(agg['evals'].values())} contract and {sum(agg['checks'].values())} workload verdicts, "
        f"{len(distinct)} distinct, {wall_s} s"
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
