"""Results depend on the value of an input, not on how it is stored."""

import random

import numpy as np

from .. import borrow, catalog, contracts, core
from .util import crng, pick, scale

ID = "C29"
CONTRACTS = contracts.pick("eigh_sp", "eigv_sp", "eigm_sp", "eigm_sp_can")
RULE = (
    "every public function taking arrays, called with the same values stored in C order, Fortran order, strided, reversed, "
    "offset, read-only and byte-swapped-free copies, and as integer, real or complex data where the values allow it; "
    "operators in lists are re-stored too. The result is compared with that of the plain array, and the input must be "
    "unchanged; calls made by 2000 cases sampled from the workloads of the other properties are repeated the same way. Distinct = (function, storage, arguments)."
)
RECYCLE = False
FLOORS = {"layout": 600, "dtype": 300, "input unchanged": 900, "eigh_sp": 20, "eigv_sp": 20, "eigm_sp": 20, "eigm_sp_can": 20, "borrowed call": 1200, "decoy with the same bytes": 300}
LAYOUTS = ("fortran", "strided", "reversed", "offset", "readonly", "view_t")


def cases(tier, seed):
    r = crng(tier, seed, 29)
    out = []
    for i, (name, mk, flags) in enumerate(catalog.CAT):
        if "R" in flags or "S" in flags or "O" in flags:
            continue
        a, k = mk(np.random.default_rng(0))
        if not any(has_array(x) for x in list(a) + list(k.values())):
            continue
        for k in range(scale(tier, 3 if "P" in flags else 6 if "B" in flags else 24, 20 if "P" in flags else 60 if "B" in flags else 250)):
            out.append({"kind": "layout", "f": i, "k": k})
        if name in catalog.DTYPES:
            for k in range(scale(tier, 4 if "B" in flags else 24, 40 if "B" in flags else 250)):
                out.append({"kind": "dtype", "f": i, "k": k})
    return out + borrow.cases(r, seed, scale(tier, 2000, 20000), plots=False)


def has_array(x):
    return isinstance(x, np.ndarray) or (isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) for v in x))


def store(x, how):
    if isinstance(x, (list, tuple)):
        return type(x)(store(v, how) if isinstance(v, np.ndarray) else v for v in x)
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    if how == "fortran":
        return np.asfortranarray(x)
    if how == "strided":
        big = np.full(tuple(2 * s for s in x.shape), 13, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in x.shape)
        return x[sl].copy()[sl]
    if how == "offset":
        big = np.full(tuple(s + 3 for s in x.shape), 13, dtype=x.dtype)
        v = big[tuple(slice(1, 1 + s) for s in x.shape)]
        v[...] = x
        return v
    if how == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    if how == "view_t":
        return x.T.copy().T
    raise KeyError(how)


def decoy(x):
    """The array whose plain storage looks, byte for byte, like that of x."""
    if isinstance(x, (list, tuple)):
        return type(x)(decoy(v) if isinstance(v, np.ndarray) else v for v in x)
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    return x.ravel(order="K").reshape(x.shape).copy()


def retype(rng, name, x):
    """Same values, another dtype (small integer types included); None if there is no other."""
    opts = []
    if not x.ndim:  # arrays, not numpy scalars
        return None
    if x.dtype.kind == "c":
        if not np.any(x.imag):
            opts.append(x.real.copy())
    else:
        opts.append(x.astype(complex))
    if x.dtype.kind != "i" and not np.any(x.imag) and np.all(x.real == np.rint(x.real)) and np.abs(x).max() < 1e6:
        opts.append(np.rint(x.real).astype(int))
    if x.dtype.kind == "i":
        opts.append(x.astype(float))
        if np.abs(x).max() < 100:
            opts.append(x.astype(np.int32))
            opts.append(x.astype(np.int8))
            if x.min() >= 0:
                opts.append(x.astype(np.uint8))
                opts.append(x.astype(np.uint8))
            if x.min() >= 0 and x.max() <= 1 and name != "clean":  # truth values are no numbers to round
                opts.append(x.astype(bool))
    return pick(rng, opts) if opts else None


REAL_SOURCES = {
    # real or integer valued arguments, so that there is another dtype to try
    "is_symp": lambda r: np.kron(np.eye(2), np.eye(3)[r.permutation(3)]),
    "is_matchgate": lambda r: np.diag(r.choice([-1.0, 1.0], 4)).astype(complex),
    "rotate_operators": lambda r: np.kron(np.eye(2), np.eye(3)[r.permutation(3)]).astype(complex),
    "eigm_sp": None,
    "eigm_sp_can": None,
}


def run(ctx, spec, rng):
    import matplotlib.pyplot as plt

    if spec["kind"] == "borrow":
        return borrowed(ctx, spec, rng)
    name, mk, flags = catalog.CAT[spec["f"]]
    s = int(rng.integers(2**31))
    a, k = mk(np.random.default_rng(s))
    a = list(a)
    if spec["kind"] == "layout":
        how = LAYOUTS[spec["k"] % len(LAYOUTS)]
        if how == "readonly" and "I" in flags:
            how = "fortran"
        b = [store(x, how) for x in mk(np.random.default_rng(s))[0]]
        kb = {q: store(x, how) for q, x in k.items()}
    else:
        how = "dtype"
        if name == "rotate_operators":
            from .. import oracles as O

            n = 3
            a = [REAL_SOURCES[name](rng), [m.astype(complex) for m in O.alphas(n)]]
        elif REAL_SOURCES.get(name):
            a[0] = REAL_SOURCES[name](rng)
        b, kb, done = [core.freeze(x) for x in a], dict(k), False
        for i in catalog.DTYPES[name]:
            if i < len(b) and isinstance(b[i], np.ndarray) and (rng.random() < 0.7 or not done):
                y = retype(rng, name.split(".")[-1], b[i])
                if y is not None:
                    b[i], done = y, True
        if not done:
            ctx.stats = getattr(ctx, "stats", {})
            ctx.stats["no other dtype"] = ctx.stats.get("no other dtype", 0) + 1
            return
    if how in ("fortran", "view_t", "reversed") and "P" not in flags and rng.random() < 0.6:
        borrow.attempt(ctx, ctx.fn(name), [decoy(v) for v in b], {q: decoy(v) for q, v in kb.items()})
        ctx.checks["decoy with the same bytes"] += 1
    d = core.digest(b, kb)
    np.random.seed(s)
    random.seed(s)
    x = catalog.value(name, ctx.call(name, *a, **k))
    plt.close("all")
    np.random.seed(s)
    random.seed(s)
    y = catalog.value(name, ctx.call(name, *b, **kb))
    plt.close("all")
    tol = 1e-7 if "D" in flags else 1e-9
    ctx.expect(same(name, x, y, tol), f"{spec['kind']}: {name} depends on how its input is stored ({how})", args=a, stored=b, plain=x, other=y)
    if "I" not in flags:
        ctx.expect(core.digest(b, kb) == d, f"input unchanged: {name} ({how})", now=b)
    ctx.nontrivial(name, how, a)
    ctx.sample({"f": name, "how": how})


def same(name, x, y, tol):
    if name.split(".")[-1] == "build_unitary_path" and len(x) == len(y) == 2 and x[0] == y[0] == "path":
        # a rotation by pi may go either way round, as rounding decides
        x, y = [x[1][0], x[1][-1]], [y[1][0], y[1][-1]]
    return catalog.equal(x, y, tol)


DTYPES = {k.split(".")[-1]: v for k, v in catalog.DTYPES.items()}


def plain(x):
    return type(x) is np.ndarray and x.dtype.kind in "biufc"


def borrowed(ctx, spec, rng):
    """Calls of another property's workload, repeated with re-stored arguments."""
    import matplotlib.pyplot as plt

    left = [30]

    def observe(sh, name, args, kw):
        flags = borrow.flags(name)
        r, e, text = borrow.attempt(sh, ctx.fn(name), args, kw)
        sh.out = text
        base = name.split(".")[-1]
        if set(flags) & set("RSPONID") or left[0] <= 0 or rng.random() < 0.3:
            return r, e
        vals = list(args) + list(kw.values())
        if not any(plain(x) or (isinstance(x, (list, tuple)) and any(plain(v) for v in x)) for x in vals):
            return r, e
        if any(isinstance(x, np.ndarray) and not plain(x) for x in vals):
            return r, e
        left[0] -= 1
        b, kb = [core.freeze(x) for x in args], dict(kw)
        how = pick(rng, LAYOUTS + ("dtype",) * 3)
        if how == "dtype":
            done = False
            for i in DTYPES.get(base, ()):
                if i < len(b) and plain(b[i]) and b[i].size and (rng.random() < 0.7 or not done):
                    y = retype(rng, name.split(".")[-1], b[i])
                    if y is not None:
                        b[i], done = y, True
            if not done:
                how = pick(rng, LAYOUTS)
        if how != "dtype":
            b = [store(x, how) for x in b]
            kb = {q: store(x, how) for q, x in kw.items()}
        if how in ("fortran", "view_t", "reversed") and "P" not in flags and rng.random() < 0.5:
            borrow.attempt(sh, ctx.fn(name), [decoy(v) for v in b], {q: decoy(v) for q, v in kb.items()})
            ctx.checks["decoy with the same bytes"] += 1
        d = core.digest(b, kb)
        r2, e2, _ = borrow.attempt(sh, ctx.fn(name), b, kb)
        x, y = borrow.outcome(name, r, e), borrow.outcome(name, r2, e2)
        ctx.checks["borrowed call"] += 1
        ok = same(base, x, y, 1e-7)
        if not ok and base in ("pf", "hf", "pt", "dt", "dt_eigen") and isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and not x.shape and not y.shape:
            # cancellation: the error scales with the size of the terms
            rows = np.linalg.norm(np.asarray(args[0], dtype=complex), axis=1)
            had = float(np.prod(rows))
            ok = abs(complex(x) - complex(y)) <= 1e-9 * (np.sqrt(had) if base in ("pf", "hf") else had)
        ctx.expect(ok, f"{'dtype' if how == 'dtype' else 'layout'}: {name} depends on how its input is stored ({how})", args=args, kw=kw, stored=b, plain=x, other=y, error=str(e or e2))
        ctx.expect(core.digest(b, kb) == d, f"input unchanged: {name} ({how})", now=b)
        ctx.nontrivial(name, how, list(args), kw)
        return r, e

    borrow.run(ctx, spec, rng, observe)
    plt.close("all")
