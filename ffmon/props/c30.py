"""Concurrent callers: threads get the results a lone caller gets."""

import collections
import importlib
import io
import pickle
import sys
import threading
import time

import numpy as np

from .. import borrow, catalog, core
from .util import crng, scale

ID = "C30"
CONTRACTS = {}
RULE = (
    "rounds of 2..8 threads, thread switch interval 1 microsecond, random delays injected between calls; every thread runs "
    "its own shuffled list of deterministic calls (same function in all threads with different arguments, mixtures, shared "
    "read-only arguments, and generated streams of small calls), each result compared with the one computed by a lone "
    "caller beforehand; the first calls of a freshly imported copy of the library are made by all threads at once; the calls made by 240 cases of the other properties' workloads are replayed in threads too. Calls overlap in time as measured by their start/end stamps. Distinct = (function, arguments)."
)
FLOORS = {"concurrent result": 4000, "shared arguments untouched": 200, "overlapping calls": 400, "first calls": 500}
ASSUMPTIONS = [
    "seeded and unseeded random generators, plotting and print_custom use process-wide state and are not called concurrently",
    "thread interleavings are those the interpreter produces at a 1 microsecond switch interval, with injected delays",
]


def usable():
    return [i for i, (n, m, f) in enumerate(catalog.CAT) if not set(f) & set("RSPOI")]


def cases(tier, seed):
    r = crng(tier, seed, 30)
    out = []
    idx = usable()
    small = [i for i in idx if "B" not in catalog.CAT[i][2]]
    for i in idx:
        for k in range(scale(tier, 1 if "B" in catalog.CAT[i][2] else 2, 10 if "B" in catalog.CAT[i][2] else 24)):
            out.append({"kind": "same", "f": [i], "t": int(r.choice([2, 4, 8])), "k": k})
    for k in range(scale(tier, 60, 900)):
        out.append({"kind": "mixed", "f": [int(x) for x in r.choice(small, 5)], "t": int(r.choice([2, 4, 8])), "k": k})
    for k in range(scale(tier, 80, 900)):
        out.append({"kind": "cold", "f": [int(x) for x in r.choice(small, 4, replace=False)], "t": int(r.choice([2, 4, 8])), "k": k})
    for b in borrow.cases(r, seed, scale(tier, 240, 3000), plots=False):
        out.append(dict(b, t=int(r.choice([2, 4, 8])), share=bool(r.random() < 0.4)))
    for k in range(scale(tier, 40, 600)):
        out.append({"kind": "shared", "f": [int(x) for x in r.choice(small, 4)], "t": int(r.choice([2, 4, 8])), "k": k})
    return out


def run(ctx, spec, rng):
    if spec["kind"] == "borrow":
        calls = record(ctx, spec, rng)
        if not calls:
            return
    old = sys.getswitchinterval()
    oldout = sys.stdout
    mon, ctx.monitoring = ctx.monitoring, False  # the recording wrappers take a lock: keep them out of the threads
    sys.stdout = io.StringIO()
    try:
        if spec["kind"] == "borrow":
            together(ctx, spec, rng, calls, borrow_make, spec["share"])
        elif spec["kind"] == "cold":
            cold(ctx, spec, rng)
        else:
            rounds(ctx, spec, rng)
    finally:
        sys.stdout = oldout
        sys.setswitchinterval(old)
        ctx.monitoring = mon


def record(ctx, spec, rng):
    """The deterministic calls of a case of another property's workload."""
    calls = []

    def observe(sh, name, args, kw):
        raw = None
        if not set(borrow.flags(name)) & set("RSPOIN") and len(calls) < 40:
            raw = borrow.pack(args, kw)
        r, e, text = borrow.attempt(sh, ctx.fn(name), args, kw)
        sh.out = text
        if raw is not None and not borrow.addressed(borrow.outcome(name, r, e)):
            calls.append((name, raw))
        return r, e

    borrow.run(ctx, spec, rng, observe)
    return list(dict.fromkeys(calls))[:16]


def borrow_make(c):
    return pickle.loads(c[1])


def catalog_make(c):
    return catalog.CAT[c[0]][1](np.random.default_rng(c[1]))


def rounds(ctx, spec, rng):
    per = 10 if spec["kind"] == "same" else 3
    calls = []  # (index, args seed)
    for i in spec["f"]:
        for _ in range(per):
            calls.append((i, int(rng.integers(2**31))))
    together(ctx, spec, rng, calls, catalog_make, spec["kind"] == "shared")


def second_copy():
    """The library imported again: no call has been made on this copy."""
    ours = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "ff" or m.startswith("ff.")}
    try:
        return importlib.import_module("ff"), {m: v for m, v in sys.modules.items() if m.startswith("ff.")}
    finally:
        for m in [m for m in sys.modules if m == "ff" or m.startswith("ff.")]:
            del sys.modules[m]
        sys.modules.update(ours)


def cold(ctx, spec, rng):
    """All threads make the first calls of a freshly imported copy at the same moment."""
    t = spec["t"]
    for _ in range(3):
        calls = [(int(i), int(rng.integers(2**31))) for i in rng.permutation(spec["f"])]
        calls += calls[:1]
        want = {}
        for c in calls:
            a, k = catalog_make(c)
            want[c] = catalog.value(title(c), ctx.fn(title(c))(*a, **k))
        ff, parts = second_copy()

        def fresh(name):
            if "." in name:
                mod, f = name.rsplit(".", 1)
                return getattr(parts["ff." + mod], f)
            return getattr(ff, name)

        fns = [fresh(title(c)) for c in calls]
        args = [[catalog_make(c) for c in calls] for _ in range(t)]
        got = [[] for _ in range(t)]
        gate = threading.Barrier(t)

        def work(j):
            for f, (a, k) in zip(fns, args[j]):
                gate.wait()
                t0 = time.perf_counter()
                try:
                    got[j].append((f(*a, **k), None, t0, time.perf_counter()))
                except BaseException as ex:  # noqa: BLE001
                    got[j].append((None, f"{type(ex).__name__}: {ex}", t0, time.perf_counter()))

        sys.setswitchinterval(1e-6)
        ths = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(t)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        sys.setswitchinterval(0.005)
        for q, c in enumerate(calls):
            name = title(c)
            spans = sorted(got[j][q][2:] for j in range(t))
            ctx.checks["overlapping calls"] += sum(b[0] < a[1] for a, b in zip(spans, spans[1:]))
            for j in range(t):
                v, e, _, _ = got[j][q]
                a, k = args[j][q]
                ctx.expect(e is None, f"first calls: {name} failed under concurrency: {e}", args=a, kw=k)
                ctx.expect(catalog.equal(catalog.value(name, v), want[c]), f"first calls: {name} differs from the lone caller's", args=a, kw=k, lone=want[c], concurrent=v)
                ctx.events += 2
            ctx.nontrivial("cold", name, c[1])
        ctx.checks["first calls"] += len(calls) * t


def title(c):
    return c[0] if isinstance(c[0], str) else catalog.CAT[c[0]][0]


def together(ctx, spec, rng, calls, make, share):
    t = spec["t"]
    fns = {c[0]: ctx.fn(title(c)) for c in calls}
    want, cost, shared = {}, {}, {}
    for c in calls:
        a, k = make(c)
        shared[c] = (a, k, core.digest(list(a), k))
        t0 = time.perf_counter()
        try:
            want[c] = catalog.value(title(c), fns[c[0]](*a, **k))
        except Exception as e:  # noqa: BLE001
            if make is catalog_make:
                ctx.fail(f"lone caller: {title(c)} raised {type(e).__name__}: {e}", args=a)
            want[c] = ["raised", type(e).__name__]
        cost[c] = time.perf_counter() - t0
    # keep a round short: drop the slowest calls if a full round would take long
    calls = [c for c in calls if cost[c] < 0.05] or sorted(calls, key=cost.get)[:1]
    results = [[] for _ in range(t)]
    gate = threading.Barrier(t)
    rng_seeds = [int(rng.integers(2**31)) for _ in range(t)]

    def work(j):
        r = np.random.default_rng(rng_seeds[j])
        todo = []
        for q in r.permutation(len(calls)):
            c = calls[int(q)]
            a, k = (shared[c][0], shared[c][1]) if share else make(c)
            todo.append((c, a, k, float(r.choice([0, 0, 0, 1e-5, 1e-4]))))
        mine = results[j]
        gate.wait()
        for c, a, k, d in todo:
            if d:
                time.sleep(d)
            t0 = time.perf_counter()
            try:
                v = fns[c[0]](*a, **k)
                e = None
            except BaseException as ex:  # noqa: BLE001
                v, e = None, f"{type(ex).__name__}: {ex}"
            mine.append((c, v, e, t0, time.perf_counter()))

    sys.setswitchinterval(1e-6)
    ths = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(t)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    sys.setswitchinterval(0.005)
    spans = []
    for j, mine in enumerate(results):
        ctx.expect(len(mine) == len(calls), "concurrent result: a thread did not finish its calls", done=len(mine))
        for c, v, e, t0, t1 in mine:
            name = title(c)
            a, k, _ = shared[c]
            if e is not None and isinstance(want[c], list) and want[c][:1] == ["raised"]:
                ctx.expect(e.startswith(want[c][1]), f"concurrent result: {name} refused for another reason: {e}", args=a, kw=k)
                continue
            ctx.expect(e is None, f"concurrent result: {name} failed under concurrency: {e}", args=a, kw=k)
            ctx.expect(catalog.equal(catalog.value(name, v), want[c]), f"concurrent result: {name} differs from the lone caller's", args=a, kw=k, lone=want[c], concurrent=v)
            spans.append((t0, t1, j))
            ctx.events += 2
            ctx.calls[name.split(".")[-1]] += 1
            ctx.nontrivial(name, c[1])
    if share:
        for c in calls:
            a, k, d = shared[c]
            ctx.expect(core.digest(list(a), k) == d, f"shared arguments untouched: {title(c)}", args=a)
    # what was observed: calls that really overlapped with a call of another thread
    spans.sort()
    n, end, owner = 0, -1.0, None
    for t0, t1, j in spans:
        if t0 < end and owner != j:
            n += 1
        if t1 > end:
            end, owner = t1, j
    ctx.checks["overlapping calls"] += n
    st = ctx.stats = getattr(ctx, "stats", collections.Counter())
    st["rounds"] += 1
    st["calls in threads"] += len(spans)
    st["overlapping calls"] += n
    ctx.sample({"threads": t, "functions": sorted({title(c) for c in calls})})
