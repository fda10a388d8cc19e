"""Borrowed workloads: the calls another property's workload makes.

The properties about the whole surface (no side effects, representation,
concurrency) have their own catalog of calls.  In addition they run cases of the
other properties' workloads - boundary values, degenerate inputs, refusals,
pipelines - with the verdicts of those properties switched off, and watch the
calls made there.
"""

import importlib
import pickle

import numpy as np

from . import catalog, core

# not C13 and C14 (process state and statistics), nor the surface properties
SOURCES = [f"c{i:02d}" for i in (*range(1, 13), *range(15, 28), 31)]

FLAGS = {}
for _n, _m, _f in catalog.CAT:
    _b = _n.split(".")[-1]
    FLAGS[core.PKG_ALIAS.get(_b, _b)] = FLAGS.get(core.PKG_ALIAS.get(_b, _b), "") + _f


def flags(name):
    b = name.split(".")[-1]
    return FLAGS.get(core.PKG_ALIAS.get(b, b), "")


def cases(r, seed, count, plots=True):
    """`count` specs sampled from the quick workloads of the other properties."""
    pools = {}
    for m in SOURCES:
        mod = importlib.import_module("ffmon.props." + m)
        by = {}
        for s in mod.cases("quick", seed):
            if s.get("cost", 0) <= 20 and (plots or m != "c22"):
                by.setdefault(s.get("kind", ""), []).append(s)
        pools[m] = by
    out = []
    names = [m for m in SOURCES if pools[m]]
    for k in range(count):
        m = names[k % len(names)]
        kinds = sorted(pools[m])
        pool = pools[m][kinds[int(r.integers(len(kinds)))]]
        out.append({"kind": "borrow", "m": m, "spec": pool[int(r.integers(len(pool)))], "k": k})
    return out


class Shadow(core.Ctx):
    """Runs another property's workload without its verdicts."""

    def __init__(self, ctx, observe):
        super().__init__(ctx.prop, "quick", ctx.seed, {})
        self.real, self.observe = ctx, observe

    def violate(self, what, **w):
        raise core.Abort()

    def fail(self, what, **w):
        raise core.Abort()

    def expect(self, ok, what, **w):
        pass

    def close(self, got, want, what, rtol=1e-7, atol=1e-8, **w):
        pass

    def nontrivial(self, *key):
        pass

    def sample(self, s):
        pass

    def call(self, name, /, *args, **kw):
        r, e = self.observe(self, name, args, kw)
        if e is not None:
            raise core.Abort()
        return r

    def refuses(self, exc, name, /, *args, **kw):
        self.observe(self, name, args, kw)


class Stop(core.Abort):
    """The observer has seen enough of this case."""


def run(ctx, spec, rng, observe):
    """Run a borrowed case; observe(shadow, name, args, kw) -> (result, exception)."""
    import matplotlib.pyplot as plt

    mod = importlib.import_module("ffmon.props." + spec["m"])
    sh = Shadow(ctx, observe)
    sh.case = ctx.case
    n = len(ctx.violations)
    try:
        mod.run(sh, spec["spec"], rng)
    except core.Abort:
        if len(ctx.violations) > n:  # the observer's own verdict
            raise
    except core.Overrun:
        raise
    except Exception:  # noqa: BLE001 - that workload's own verdict, not ours
        if len(ctx.violations) > n:
            raise core.Abort() from None
    finally:
        plt.close("all")


def attempt(ctx, f, args, kw):
    """(result, exception, printed text) of one call."""
    try:
        return ctx.quiet(f, *args, **kw), None, ctx.out
    except (core.Abort, core.Overrun, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        return None, e, ctx.out


def outcome(name, r, e):
    """Comparable value of a call's outcome."""
    if e is not None:
        return ["raised", type(e).__name__]
    return catalog.value(name.split(".")[-1], r)


def pack(args, kw):
    """Pickled arguments, or None if they have no faithful copy."""
    def ok(x):
        if isinstance(x, np.ndarray):
            return type(x) is np.ndarray and x.dtype.kind in "biufc" and (x.flags.c_contiguous or x.flags.f_contiguous) and x.flags.aligned
        if isinstance(x, (list, tuple)):
            return all(ok(v) for v in x)
        return True

    if not all(ok(x) for x in list(args) + list(kw.values())):
        return None
    try:
        raw = pickle.dumps((args, kw), 4)
    except Exception:  # noqa: BLE001
        return None
    return raw if len(raw) < 4_000_000 else None


def addressed(v):
    return " at 0x" in repr(v) if not isinstance(v, np.ndarray) else False


def decoy(rng, how, x):
    """Another argument that is easily taken for x: same type, shape and more."""
    import networkx as nx

    key = int(rng.integers(2**31))

    def go(v):
        r = np.random.default_rng(key)  # arguments of one call change together
        if isinstance(v, np.ndarray):
            return arr(r, v)
        if isinstance(v, (list, tuple)) and v and all(isinstance(q, np.ndarray) for q in v):
            return type(v)(go(q) for q in v) if how in ("near", "negated") else v
        if isinstance(v, nx.Graph) and not isinstance(v, nx.PlanarEmbedding):
            return graph(r, v)
        if isinstance(v, float) and how == "near":
            return v * (1 + 2e-10)
        return v

    def arr(r, v):
        if v.dtype.kind not in "iufc" or not v.size:
            return v
        inexact = v.dtype.kind in "fc"
        if how == "near":
            return v * v.dtype.type(1 + 10.0 ** r.uniform(-10.7, -8.3)) if inexact else v
        if how == "negated":
            return -v if v.dtype.kind != "u" else v
        if how == "transposed":
            return v.T.copy() if v.ndim == 2 and v.shape[0] == v.shape[1] else v[::-1].copy()
        n = v.shape[0]
        if n < 2:
            return v
        if how == "exchanged":  # same sums, same diagonal, same entries
            w = v.copy()
            if v.ndim == 2 and v.shape[1] == n and n > 2:
                i, j, k = (int(q) for q in r.permutation(n)[:3])
                w[i, j], w[i, k], w[j, i], w[k, i] = v[i, k], v[i, j], v[k, i], v[j, i]
            else:
                i, j = (int(q) for q in r.permutation(n)[:2])
                w[[i, j]] = v[[j, i]]
            return w
        if how == "relabelled":
            h = n // 2
            p = r.permutation(n)
            if n % 2 == 0 and r.random() < 0.5:  # both halves alike
                q = r.permutation(h)
                p = np.concatenate([q, q + h])
            return v[np.ix_(p, p)].copy() if v.ndim == 2 and v.shape[1] == n else v[p].copy()
        # inside: entries that neither the corners nor the borders show
        i = [n // 2] if n % 2 or r.random() < 0.5 else [n // 4, n // 4 + n // 2]
        w = v.copy()
        c = -1 if not inexact or r.random() < 0.5 else v.dtype.type(1 + 1e-3)
        w[i] = w[i] * c
        if v.ndim == 2 and v.shape[1] == n:
            w[:, i] = w[:, i] * c
        return w

    def graph(r, G):
        H = G.copy()
        E = list(H.edges(data=True))
        if len(E) < 2:
            return H
        a, b = (int(q) for q in r.permutation(len(E))[:2])
        if how == "near":
            for _, _, d in E:
                if isinstance(d.get("weight"), float):
                    d["weight"] *= 1 + 2e-10
        elif how == "inside":
            E[a][2]["weight"] = E[a][2].get("weight", 1) * 2
        elif how == "negated":
            H.remove_edge(*E[a][:2])
        else:  # two weights exchanged, or the edges moved around among the same nodes
            if "weight" in E[a][2] and E[a][2].get("weight") != E[b][2].get("weight"):
                E[a][2]["weight"], E[b][2]["weight"] = E[b][2].get("weight", 1), E[a][2]["weight"]
            else:
                N = list(G.nodes)
                p = dict(zip(N, [N[int(q)] for q in r.permutation(len(N))]))
                H = nx.Graph()
                H.add_nodes_from(N)
                H.add_edges_from((p[u], p[v], dict(d)) for u, v, d in G.edges(data=True))
        return H

    return go(x)


def apart(a, b):
    """Largest relative difference between two outcomes (inf: of another kind)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return np.inf
        ok = (a == b) | (np.isnan(a) & np.isnan(b))
        if np.all(ok):
            return 0.0
        s = max(1e-300, float(np.max(np.abs(np.where(np.isfinite(a), a, 0)))))
        with np.errstate(all="ignore"):
            d = np.max(np.abs(a[~ok] - b[~ok])) / s
        return float(d) if np.isfinite(d) else np.inf
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return max([apart(x, y) for x, y in zip(a, b)], default=0.0)
    return 0.0 if type(a) is type(b) and a == b else np.inf
