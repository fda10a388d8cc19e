"""No side effects: arguments, earlier results, process-wide state, history."""

import decimal
import gc
import locale
import logging
import os
import pickle
import random
import signal
import struct
import sys
import threading
import time
import warnings

import numpy as np

from .. import borrow, catalog, core
from .util import crng, pick, scale

ID = "C28"
CONTRACTS = {}
RULE = (
    "random call histories over the whole public surface (about 90 call forms and 80 with large arguments): every call is compared with the same call "
    "made first thing in a fresh process, before and after the rest of the history has run and after earlier results have "
    "been overwritten by the caller; argument digests, digests of results still held, and the process-wide state (both "
    "random generators, print and error settings, warning filters, plotting defaults, environment, working directory, garbage collection, locale, decimal context, threads, signal handlers, logging) are "
    "compared around every call; the same watch is kept on the calls made by about 900 cases sampled from the workloads of "
    "the other properties (boundary values, refusals, pipelines), replayed in another order and in a fresh process; plots drawn beside other figures and axes leave those alone. Distinct = distinct (function, arguments)."
)
FLOORS = {
    "arguments untouched": 900, "same as in a fresh process": 900, "process state": 900, "repetition": 500,
    "held results": 400, "verbose": 60, "borrowed call": 1500, "figures of the caller": 60, "look-alike": 300,
}
DECOYS = ("near", "relabelled", "inside", "negated", "transposed", "exchanged")
VERBOSE = ("generate_pauli_group", "rotate_operators", "build_op", "compute_algebra_S", "is_matchgate", "complete_face", "pfo_algorithm")


def cases(tier, seed):
    r = crng(tier, seed, 28)
    out = []
    idx = [i for i, e in enumerate(catalog.CAT) if "N" not in e[2]]
    light = [i for i in idx if not set("PB") & set(catalog.CAT[i][2])]
    for k in range(scale(tier, 160, 1800)):
        picks = [int(x) for x in r.choice(light, 7)]
        if r.random() < 0.5:  # several calls of one function: caches and buffers
            f = int(r.choice(light))
            picks += [f] * 3
        if k % 5 == 0:
            picks.append(int(r.choice(idx)))
        out.append({"kind": "history", "f": [int(x) for x in r.permutation(picks)], "k": k})
    for i in idx:  # every form at least twice
        for k in range(scale(tier, 2, 8)):
            out.append({"kind": "history", "f": [i] * (2 if "P" in catalog.CAT[i][2] else 3 if "B" in catalog.CAT[i][2] else 4), "k": k})
    out += borrow.cases(r, seed, scale(tier, 900, 9000))
    plots = [i for i in idx if "P" in catalog.CAT[i][2]]
    for k in range(scale(tier, 30, 300)):
        out.append({"kind": "figures", "f": plots[k % len(plots)], "k": k})
    for i in idx:
        a, kw = catalog.CAT[i][1](np.random.default_rng(1))
        if "P" in catalog.CAT[i][2] or not any(isinstance(x, (np.ndarray, list, tuple)) or hasattr(x, "nodes") for x in a):
            continue
        for k in range(scale(tier, 1 if "B" in catalog.CAT[i][2] else 2, 12)):
            for how in DECOYS + ("near",) * 2:
                out.append({"kind": "decoy", "f": i, "how": how, "k": k})
    for f in VERBOSE:
        for k in range(scale(tier, 18 if f != "pfo_algorithm" else 4, 150 if f != "pfo_algorithm" else 25)):
            out.append({"kind": "verbose", "f": f, "k": k})
    return out


class Zygote:
    """A process forked before any library call; forks again for every request."""

    def __init__(self, ctx):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            try:
                self.serve(ctx, a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r, self.pid = os.fdopen(b, "wb"), os.fdopen(c, "rb"), pid

    @staticmethod
    def serve(ctx, a, d):
        f = os.fdopen(a, "rb")
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            req = f.read(struct.unpack("I", h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    ctx.monitoring = False
                    req = pickle.loads(req)
                    ans = one(ctx, *req) if req[0] is not None else again(ctx, *req[1:])
                except BaseException as e:  # noqa: BLE001
                    ans = ("error", f"{type(e).__name__}: {e}")
                raw = pickle.dumps(ans)
                with os.fdopen(d, "wb") as g:
                    g.write(struct.pack("I", len(raw)) + raw)
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, *req):
        raw = pickle.dumps(req)
        self.w.write(struct.pack("I", len(raw)) + raw)
        self.w.flush()
        h = self.r.read(4)
        return pickle.loads(self.r.read(struct.unpack("I", h)[0]))


def unusual():
    """Process-wide settings a caller may have chosen; every call must leave them alone."""
    import matplotlib as mpl

    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    np.set_printoptions(precision=7, suppress=True, linewidth=91, threshold=500, edgeitems=4)
    mpl.rcParams["figure.figsize"] = [5.5, 3.25]
    mpl.rcParams["lines.linewidth"] = 1.25


def make(i, s):
    return catalog.CAT[i][1](np.random.default_rng(s))


def one(ctx, i, s, amb):
    import matplotlib.pyplot as plt

    name = catalog.CAT[i][0]
    a, k = make(i, s)
    np.random.seed(amb)
    random.seed(amb)
    r = ctx.quiet(ctx.fn(name), *a, **k)
    v = (catalog.value(name, r), ctx.out)
    plt.close("all")
    return v


def again(ctx, name, raw, amb, opts, reuse=False):
    """A borrowed call on its own, from its pickled arguments."""
    import matplotlib.pyplot as plt

    a, k = pickle.loads(raw)
    used = []
    if reuse:
        ctx.storage.n |= 1
        a, k, used = ctx.storage.reuse(name, a, k)
    np.random.seed(amb)
    random.seed(amb)
    with np.printoptions(**opts):
        r, e, text = borrow.attempt(ctx, ctx.fn(name), a, k)
    if e is None:
        ctx.storage.retire(r, used)
    v = (borrow.outcome(name, r, e), text)
    plt.close("all")
    return v


def ambient():
    import matplotlib as mpl

    return {
        "numpy generator": core.digest(repr(np.random.get_state())),
        "random generator": core.digest(repr(random.getstate())),
        "print options": repr(sorted((k, v) for k, v in np.get_printoptions().items() if k != "formatter")),
        "error settings": repr((np.geterr(), np.geterrcall())),
        "warning filters": repr(warnings.filters),
        "plot defaults": hash(tuple((k, repr(v)) for k, v in sorted(mpl.rcParams.items()) if k != "backend_fallback" and not k.startswith("_"))),
        "environment": core.digest(sorted(os.environ.items())),
        "directory": os.getcwd(),
        "files in the working directory": tuple(sorted(os.listdir("."))),
        "recursion limit": sys.getrecursionlimit(),
        "stdout": (id(sys.stdout), id(sys.stderr), id(sys.displayhook), id(sys.excepthook)),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "decimal context": repr(decimal.getcontext()),
        "locale": locale.setlocale(locale.LC_ALL),
        "threads": threading.active_count(),
        "switch interval": sys.getswitchinterval(),
        "tracing": (sys.gettrace(), sys.getprofile()),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "signal handlers": tuple(repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGFPE, signal.SIGCHLD)),
        "default socket timeout, time zone": (time.tzname, time.timezone),
        "numpy buffer": np.getbufsize(),
    }


def run(ctx, spec, rng):
    import matplotlib.pyplot as plt

    if not hasattr(ctx, "zygote"):
        unusual()
        for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
            os.environ.pop(v, None)  # read when numpy was loaded; a library that sets them is seen
        ctx.zygote = Zygote(ctx)
        ambient()
    if spec["kind"] == "borrow":
        return borrowed(ctx, spec, rng)
    if spec["kind"] == "figures":
        return figures(ctx, spec, rng)
    if spec["kind"] == "verbose":
        return verbose(ctx, spec, rng)
    if spec["kind"] == "decoy":
        return decoy(ctx, spec, rng)
    seeds = [int(rng.integers(2**31)) for _ in spec["f"]]
    amb = [int(rng.integers(2**31)) for _ in spec["f"]]
    first, held = {}, []
    ctx.recycle = False

    def call(j, again):
        i = spec["f"][j]
        name, _, flags = catalog.CAT[i]
        a, k = make(i, seeds[j])
        used = []
        if again and "A" not in flags and rng.random() < 0.5:  # the same values in storage used before
            ctx.storage.n |= 1
            a, k, used = ctx.storage.reuse(name, a, k)
        dig = core.digest(list(a), k)
        np.random.seed(amb[j])
        random.seed(amb[j])
        if rng.random() < 0.3:
            np.random.standard_normal()  # a cached second gaussian is part of the state
            np.random.seed(amb[j]) if "R" in flags else None
        before = ambient()
        r = ctx.call(name, *a, **k)
        out = ctx.out
        ctx.storage.retire(r, used)
        after = ambient()
        plt.close("all")
        if "I" not in flags:
            ctx.expect(core.digest(list(a), k) == dig, f"arguments untouched: {name} changed one of its arguments", args=make(i, seeds[j])[0], now=a)
        skip = ("numpy generator", "random generator") if ("R" in flags or "S" in flags) else ()
        for key in before:
            if key not in skip:
                ctx.expect(before[key] == after[key], f"process state: {name} changed the {key}", args=a, kw=k)
        v = (catalog.value(name, r), out)
        if not again:
            first[j] = v
        else:
            ctx.expect(catalog.equal(v[0], first[j][0]) and v[1] == first[j][1], f"repetition: {name} gives another result for the same call later in the history", args=a, kw=k, first=first[j], now=v)
        ref = ctx.zygote.ask(i, seeds[j], amb[j]) if not again else None
        if ref is not None:
            ctx.expect(not (isinstance(ref[0], str) and ref[0] == "error"), f"same as in a fresh process: {name} failed there: {ref[1]}", args=a)
            ctx.expect(catalog.equal(v[0], ref[0]) and v[1] == ref[1], f"same as in a fresh process: {name} gives another result after this history", args=a, kw=k, fresh=ref, now=v)
            ctx.nontrivial(name, list(a), k)
        if "A" in flags:  # may hand back its argument, which is the caller's anyway
            return
        if rng.random() < 0.5:
            catalog.poison(r)
        elif not callable(r):
            held.append((name, r, core.digest(r)))

    n = len(spec["f"])
    for j in range(n):
        call(j, False)
    for j in rng.permutation(n):
        call(int(j), True)
    for name, r, d in held:
        ctx.expect(core.digest(r) == d, f"held results: a result of {name} changed after it was returned", now=r)
    ctx.sample([catalog.CAT[i][0] for i in spec["f"]])


def look(ax):
    return (
        [(type(c).__name__, id(c)) for c in ax.get_children()], ax.get_title(), ax.get_xlim(), ax.get_ylim(), ax.get_xscale(), ax.get_yscale(),
        ax.get_xlabel(), ax.get_ylabel(), ax.get_position().bounds, ax.axison, [core.digest(np.asarray(ln.get_xydata())) for ln in ax.lines],
    )


def figures(ctx, spec, rng):
    """What the caller has drawn elsewhere stays as it is."""
    import matplotlib.pyplot as plt

    name = catalog.CAT[spec["f"]][0]
    plt.close("all")
    try:
        kept = []
        for k in range(int(rng.integers(0, 3))):
            fig, ax = plt.subplots()
            ax.plot(rng.standard_normal(4))
            kept.append(ax)
        fig, axes = plt.subplots(1, 3)
        here = int(rng.integers(3))
        for j in range(3):
            if j != here:
                axes[j].plot(rng.standard_normal(5))
                axes[j].set_title(f"mine {j}")
                kept.append(axes[j])
        plt.figure(fig.number)
        plt.sca(axes[here])
        before = [(ax.figure.number, look(ax)) for ax in kept]
        open_ = set(plt.get_fignums())
        for _ in range(int(rng.integers(1, 3))):
            a, k = make(spec["f"], int(rng.integers(2**31)))
            ctx.call(name, *a, **k)
        ctx.expect(open_ <= set(plt.get_fignums()), f"figures of the caller: {name} closed one")
        for (num, was), ax in zip(before, kept):
            ctx.expect(plt.fignum_exists(num) and ax in plt.figure(num).axes, f"figures of the caller: {name} removed axes")
            ctx.expect(look(ax) == was, f"figures of the caller: {name} changed axes that are not the current ones", was=was, now=look(ax))
        ctx.nontrivial(name, spec["k"])
    finally:
        plt.close("all")


def borrowed(ctx, spec, rng):
    """A case of another property's workload, watched for side effects."""
    import matplotlib.pyplot as plt

    log, held = [], []

    def observe(sh, name, args, kw):
        flags = borrow.flags(name)
        amb = int(rng.integers(2**31))
        raw = borrow.pack(args, kw)
        dig = core.digest(list(args), kw)
        np.random.seed(amb)
        random.seed(amb)
        opts = {q: o for q, o in np.get_printoptions().items() if q != "override_repr"}
        before = ambient()
        r, e, text = borrow.attempt(sh, ctx.fn(name), args, kw)
        after = ambient()
        ctx.checks["borrowed call"] += 1
        if "I" not in flags:
            ctx.expect(core.digest(list(args), kw) == dig, f"arguments untouched: {name} changed one of its arguments", now=args, kw=kw)
        skip = ("numpy generator", "random generator") if set(flags) & set("RSN") else ()
        for key in before:
            if key not in skip:
                ctx.expect(before[key] == after[key], f"process state: {name} changed the {key}", args=args, kw=kw)
        if "N" not in flags and raw is not None and len(log) < 60:
            v = (borrow.outcome(name, r, e), text)
            if not borrow.addressed(v):
                log.append((name, raw, amb, v, opts))
        if "A" not in flags and e is None and not callable(r) and len(held) < 60:
            held.append((name, r, core.digest(r)))
        sh.out = text
        return r, e

    borrow.run(ctx, spec, rng, observe)
    for name, r, d in held:
        ctx.expect(core.digest(r) == d, f"held results: a result of {name} changed after it was returned", now=r)
    order = rng.permutation(len(log))
    for q, j in enumerate(order):
        name, raw, amb, v, opts = log[int(j)]
        if q < 40:
            w = again(ctx, name, raw, amb, opts, not set("AI") & set(borrow.flags(name)) and rng.random() < 0.5)
            ctx.expect(catalog.equal(w[0], v[0]) and w[1] == v[1], f"repetition: {name} gives another result for the same call later in the history", args=pickle.loads(raw), first=v, now=w)
        if q < 3:
            ref = ctx.zygote.ask(None, name, raw, amb, opts)
            ctx.expect(not (isinstance(ref[0], str) and ref[0] == "error"), f"same as in a fresh process: {name} failed there: {ref[1]}", args=pickle.loads(raw))
            ctx.expect(catalog.equal(v[0], ref[0]) and v[1] == ref[1], f"same as in a fresh process: {name} gives another result after this history", args=pickle.loads(raw), fresh=ref, now=v)
            ctx.nontrivial(name, raw)
    plt.close("all")


def decoy(ctx, spec, rng):
    """Calls with arguments easily taken for each other, one after the other."""
    import matplotlib.pyplot as plt

    name = catalog.CAT[spec["f"]][0]
    s, amb = int(rng.integers(2**31)), int(rng.integers(2**31))
    a, kw = make(spec["f"], s)
    b = tuple(borrow.decoy(rng, spec["how"], x) for x in a)
    raws = [borrow.pack(a, kw), borrow.pack(b, kw)]
    if None in raws or raws[0] == raws[1]:
        return
    opts = {q: o for q, o in np.get_printoptions().items() if q != "override_repr"}
    fresh = [ctx.zygote.ask(None, name, r, amb, opts) for r in raws]
    for f in fresh:
        ctx.expect(not (isinstance(f[0], str) and f[0] == "error"), f"same as in a fresh process: {name} failed there: {f[1]}", args=a)
    gap = borrow.apart(fresh[1][0], fresh[0][0])
    order = [0, 1, 0] if rng.random() < 0.5 else [1, 0, 1]
    for j in order:
        v = again(ctx, name, raws[j], amb, opts)
        ctx.expect(catalog.equal(v[0], fresh[j][0]) and v[1] == fresh[j][1], f"same as in a fresh process: {name} gives another result after a call with {spec['how']} arguments", args=pickle.loads(raws[j]), fresh=fresh[j], now=v)
        if 1e-11 < gap < 1e-6:  # a slight change of the argument shows in the result
            ctx.expect(borrow.apart(v[0], fresh[j][0]) < gap / 2, f"same as in a fresh process: {name} gives the result of an earlier call with nearly the same arguments", args=pickle.loads(raws[j]), fresh=fresh[j], now=v)
        ctx.checks["look-alike"] += 1
    if gap:
        ctx.nontrivial(name, raws[0], spec["how"])
    plt.close("all")


def verbose(ctx, spec, rng):
    import matplotlib.pyplot as plt

    f = spec["f"]
    i = next(i for i, e in enumerate(catalog.CAT) if e[0] == f)
    s = int(rng.integers(2**31))
    a, k = make(i, s)
    b, _ = make(i, s)
    x = catalog.value(f, ctx.call(f, *a, **k))
    try:
        y = ctx.call(f, *b, **dict(k, verbose=True))
    finally:
        plt.close("all")
    y = catalog.value(f, y)
    if f == "pfo_algorithm":
        x, y = np.abs(x), np.abs(y)  # the random spanning structure may be reported, not the result
    ctx.expect(catalog.equal(x, y), f"verbose: {f} returns something else when asked to report", args=a, quiet=x, verbose=y)


_ = (pick, time)
