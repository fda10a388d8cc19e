"""Partial traces, their package aliases, and the direct sum."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C17"
CONTRACTS = contracts.pick("partial_trace_blockTr", "partial_trace_diagblocksum", "kron_plus")
RULE = (
    "arbitrary (also non-Hermitian, complex, real, integer) composite matrices over every factorisation of dimensions up to 390 with unequal factors, Kronecker products, entangled states; package aliases and defining functions; chains of "
    "reductions; direct sums of square, rectangular and empty blocks. Distinct = argument digests."
)
FLOORS = {"partial_trace_blockTr": 300, "partial_trace_diagblocksum": 300, "kron_plus": 200, "product": 150, "trace": 200, "direct sum": 100}


def cases(tier, seed):
    r = crng(tier, seed, 17)
    out = []
    for d1 in range(1, 9):
        for d2 in range(1, 9):
            for k in range(scale(tier, 4, 50)):
                out.append({"kind": "pt", "d": [d1, d2], "m": pick(r, ["cplx", "real", "int", "state", "prod", "herm", "pure", "imag", "tiny", "nearreal", "halfreal"]), "k": k})
    for k in range(scale(tier, 60, 600)):
        d = [int(r.integers(9, 34)), int(r.integers(1, 4))]
        out.append({"kind": "pt", "d": d if k % 2 else d[::-1], "m": pick(r, ["cplx", "real", "int", "state", "herm", "imag"]), "k": k, "cost": 2})
    for k in range(scale(tier, 80, 1000)):
        out.append({"kind": "chain", "d": [int(x) for x in r.integers(2, 5, 3)], "k": k})
    for k in range(scale(tier, 150, 2000)):
        out.append({"kind": "sum", "k": k})
    for k in range(scale(tier, 24, 160)):
        d = [int(r.integers(33, 130)), int(r.integers(2, 4))] if k % 3 else [[9, 9], [10, 10], [8, 16], [11, 12], [13, 13], [9, 14]][k // 3 % 6]
        out.append({"kind": "pt", "d": d if k % 2 else d[::-1], "m": pick(r, ["cplx", "real", "int", "herm"]), "k": k, "cost": 9})
    return out + scenarios.specs(["random", "diag"], scale(tier, 3, 30))


def run(ctx, spec, rng):
    kind = spec["kind"]
    if kind == "scenario":
        return scenarios.run(ctx, spec, rng)
    if kind == "pt":
        a, b = spec["d"]
        D, m = a * b, spec["m"]
        A, B = gen.cplx(rng, a, a), gen.cplx(rng, b, b)
        X = gen.cplx(rng, D, D)
        if m == "real":
            X = X.real
        elif m == "imag":
            X = 1j * X.real
        elif m == "int":
            X = rng.integers(-5, 6, (D, D))
        elif m == "prod":
            X = np.kron(A, B)
        elif m == "herm":
            X = X + X.conj().T
        elif m == "state":
            X = X @ X.conj().T
            X /= np.trace(X).real
        elif m == "pure":
            v = gen.wavefunction(rng, D)
            X = np.outer(v, v.conj())
        elif m == "nearreal":
            X = X.real + 1j * float(10.0 ** rng.uniform(-7, -2)) * X.imag
        elif m == "halfreal":  # most imaginary parts vanish
            X = X.real + 1j * X.imag * (rng.random((D, D)) < 0.1)
        elif m == "tiny":
            X = X * 1e-6
        if rng.random() < 0.2:
            X = np.asfortranarray(X)
        # keep the first factor (dimension a), keep the second one (dimension b)
        f1 = ctx.call("partial_trace_over_2", X, a)
        f1b = ctx.call("ff_utils.partial_trace_blockTr", X, a)
        f2 = ctx.call("partial_trace_over_1", X, b)
        f2b = ctx.call("ff_utils.partial_trace_diagblocksum", X, b)
        X4 = np.asarray(X).reshape(a, b, a, b)
        sc = 1e-12 * max(np.abs(X).max(), 1e-30) * D
        lo = 2e-8
        w1, w2 = np.einsum("ikjk->ij", X4), np.einsum("kikj->ij", X4)
        s1 = lo if np.abs(np.imag(w1)).max() < lo else 0
        ctx.close(f1, w1, "keeps the first factor", 0, sc + s1, dims=(a, b))
        ctx.close(f2, w2, "keeps the second factor", 0, sc, dims=(a, b))
        ctx.close(f1b, f1, "alias of the first-factor reduction", 0, sc)
        ctx.close(f2b, f2, "alias of the second-factor reduction", 0, sc)
        ctx.close(np.trace(f1), np.trace(X), "trace preserved", 0, sc + s1 * a)
        ctx.close(np.trace(f2), np.trace(X), "trace preserved", 0, sc)
        ctx.checks["trace"] += 1
        if m == "prod":
            ctx.close(f1, A * np.trace(B), "product", 1e-9, 1e-10 + s1)
            ctx.close(f2, B * np.trace(A), "product", 1e-9, 1e-10)
        else:
            P = np.kron(A, np.eye(b))
            ctx.close(np.trace(np.asarray(f1) @ A), np.trace(X @ P), "product", 1e-9, 1e-10 + s1 * 10 * a)
            P = np.kron(np.eye(a), B)
            ctx.close(np.trace(np.asarray(f2) @ B), np.trace(X @ P), "product", 1e-9, 1e-10)
        if m in ("state", "pure"):
            for f in (f1, f2):
                f = np.asarray(f)
                ctx.expect(np.linalg.eigvalsh((f + f.conj().T) / 2).min() > -1e-10, "reduction positive")
        ctx.sample({"dims": spec["d"], "class": m})
    elif kind == "chain":
        a, b, c = spec["d"]
        v = gen.wavefunction(rng, a * b * c)
        X = np.outer(v, v.conj())
        one = ctx.call("partial_trace_over_2", np.asarray(ctx.call("partial_trace_over_2", X, a * b)), a)
        ctx.close(one, ctx.call("partial_trace_over_2", X, a), "reductions compose", 0, 1e-10)
        two = ctx.call("partial_trace_over_1", np.asarray(ctx.call("partial_trace_over_1", X, b * c)), c)
        ctx.close(two, ctx.call("partial_trace_over_1", X, c), "reductions compose", 0, 1e-10)
        mid = ctx.call("partial_trace_over_1", np.asarray(ctx.call("partial_trace_over_2", X, a * b)), b)
        mid2 = ctx.call("partial_trace_over_2", np.asarray(ctx.call("partial_trace_over_1", X, b * c)), b)
        ctx.close(mid, mid2, "order of reductions is immaterial", 0, 1e-10)
        # the two marginals of a pure state share their spectrum
        w1 = np.linalg.eigvalsh(np.asarray(ctx.call("partial_trace_over_2", X, a)))
        w2 = np.linalg.eigvalsh(np.asarray(ctx.call("partial_trace_over_1", X, b * c)))
        m = min(len(w1), len(w2))
        ctx.close(np.sort(w1)[::-1][:m], np.sort(w2)[::-1][:m], "Schmidt spectra agree", 0, 1e-10)
    else:
        r = [int(x) for x in rng.integers(1, 6, 4)]
        if rng.random() < 0.4:
            r[1], r[3] = r[0], r[2]
        elif rng.random() < 0.25:  # blocks without rows or without columns
            r[int(rng.integers(4))] = 0
            if rng.random() < 0.3:
                r[int(rng.integers(4))] = 0
        mks = [lambda *s: gen.cplx(rng, *s), lambda *s: rng.standard_normal(s), lambda *s: rng.integers(-4, 5, s)]
        mk, mk2 = pick(rng, mks), pick(rng, mks)
        A, B = mk(r[0], r[1]), (mk2 if rng.random() < 0.6 else mk)(r[2], r[3])
        if rng.random() < 0.2:
            B = np.asarray(B, dtype=complex)
        S = np.asarray(ctx.call("kron_plus", A, B))
        ctx.close(S[: r[0], : r[1]], A, "direct sum: first block", 0, 0)
        ctx.close(S[r[0] :, r[1] :], B, "direct sum: second block", 0, 0)
        ctx.expect(S.shape == (r[0] + r[2], r[1] + r[3]), "direct sum: shape")
        ctx.expect(not np.any(S[: r[0], r[1] :]) and not np.any(S[r[0] :, : r[1]]), "direct sum: off-diagonal blocks vanish")
        C = mk(2, 3)
        ctx.close(ctx.call("kron_plus", S, C), ctx.call("kron_plus", A, ctx.call("kron_plus", B, C)), "direct sum: associative", 0, 0)
        x, y = gen.cplx(rng, r[1], 2), gen.cplx(rng, r[3], 2)
        ctx.close(S @ np.vstack([x, y]), np.vstack([A @ x, B @ y]), "direct sum: acts blockwise", 1e-10, 1e-10)


_ = O
