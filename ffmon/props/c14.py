"""Sampling laws of the random generators, decided on recorded samples.

Each law is a list of statistics with a known mean; the sample mean must lie within
7 standard errors (population or sample standard error, whichever is larger) of it.  Discrete laws compare every
cell.  The false-alarm probability per statistic is below 1e-11."""

import itertools
import math

import numpy as np

from .. import oracles as O
from .util import scale

ID = "C14"
ROUNDS = 2
CONTRACTS = {}
SIG = 7.0
RULE = (
    "independent samples (seeded and unseeded) of every generator with a documented law: Haar vectors, Haar "
    "special-orthogonal rotations, Dirichlet spectra, Gaussian coefficients, Gaussian-state orbits, exponential "
    "temperatures, uniform particle numbers, uniform bit strings, uniform stabilizer states; first, second and fourth "
    "moments and cell frequencies within 7 standard errors. Distinct = distinct statistics."
)
ASSUMPTIONS = ["finite samples: distortions below about 7 standard errors (2-10 %) are not visible"]
LAWS = (
    ("haar_vec", 1), ("haar_vec", 2), ("haar_vec", 3), ("haar_rho", 1), ("haar_rho", 2), ("so", 1), ("so", 2), ("so", 3),
    ("coeff", 2), ("coeff", 3), ("coeff", 4), ("coeff", 6), ("coeffN", 3), ("coeffN", 5), ("w0", 2), ("w0", 3), ("ffpure", 3), ("wn", 3), ("cn", 3),
    ("wnfix", 3), ("beta", 2), ("betaN", 2), ("betaN", 1), ("betaN", 3), ("dirichlet", 2), ("dirichlet", 3), ("bits", 5), ("bits", 4), ("bits", 3), ("bits", 7), ("bits_long", 14), ("bits_long", 24), ("bits_long", 40), ("chp", 1), ("chp", 2), ("chp_large", 3), ("chp_large", 4), ("chp_large", 5), ("chp_large", 6),
    ("randH", 2), ("randH", 3), ("rotpdf_basis", 2),
)
# the same laws when every sample is drawn with a seed of its own
SEEDED = (
    ("haar_vec", 1), ("haar_vec", 2), ("haar_rho", 1), ("haar_rho", 2), ("so", 2), ("so", 3), ("coeff", 2), ("coeff", 3), ("coeffN", 3), ("w0", 2), ("w0", 3),
    ("ffpure", 2), ("ffpure", 3), ("wn", 3), ("wn", 4), ("cn", 3), ("wnfix", 3), ("beta", 2), ("beta", 3), ("betaN", 2), ("betaN", 3), ("dirichlet", 2), ("dirichlet", 3),
    ("rotpdf_basis", 2), ("randH", 2),
)
FLOORS = {"moment": 250, "serial": 250, "cells": 60}


def cases(tier, seed):
    out = []
    for name, n in LAWS:
        for k in range(scale(tier, 1, 4)):
            out.append({"kind": name, "n": n, "k": k, "N": scale(tier, 3000, 12000), "cost": 100})
    for name, n in SEEDED:
        for k in range(scale(tier, 1, 3)):
            out.append({"kind": name, "n": n, "k": k, "N": scale(tier, 2000, 8000), "seeded": 1, "cost": 70})
    return out


def mean_is(ctx, xs, mu, what, var=None):
    """xs: (N, m) samples of m statistics with means mu (population variance var)."""
    xs = np.asarray(xs, dtype=float)
    xs = xs.reshape(len(xs), -1)
    mu = np.broadcast_to(np.asarray(mu, dtype=float).reshape(-1), xs.shape[1:])
    m, s = xs.mean(0), xs.std(0)
    if var is not None:
        s = np.maximum(s, np.sqrt(np.broadcast_to(np.asarray(var, dtype=float).reshape(-1), s.shape)))
    se = s / math.sqrt(len(xs)) + 1e-9
    z = np.abs(m - mu) / se
    for j in range(xs.shape[1]):
        ctx.nontrivial(what, j)
    ctx.checks["moment"] += xs.shape[1]
    # successive draws are independent
    y = xs - mu
    for lag in (1, 2):
        w = y[lag:] * y[:-lag]
        zz = np.abs(w.mean(0)) / (np.maximum(w.std(0), s**2) / math.sqrt(len(w)) + 1e-9)
        q = int(np.argmax(zz))
        if zz[q] > SIG:
            ctx.fail(f"{what}: draws {lag} apart are correlated, statistic {q} ({zz[q]:.1f} standard errors, {len(w)} pairs)")
    ctx.checks["serial"] += xs.shape[1]
    k = int(np.argmax(z))
    if z[k] > SIG:
        ctx.fail(f"{what}: mean {m[k]:.5g} of statistic {k}, law says {mu[k]:.5g} ({z[k]:.1f} standard errors, {len(xs)} samples)")


def cells(ctx, counts, probs, what):
    N = sum(counts.values())
    extra = set(counts) - set(probs)
    if extra:
        ctx.fail(f"{what}: outcome {sorted(map(str, extra))[:3]} outside the support")
    for c, p in probs.items():
        ctx.checks["cells"] += 1
        ctx.nontrivial(what, c)
        sd = math.sqrt(N * p * (1 - p)) + 1e-9
        z = abs(counts.get(c, 0) - N * p) / sd
        if z > SIG:
            ctx.fail(f"{what}: outcome {c} seen {counts.get(c, 0)} times in {N}, law says {N * p:.0f} ({z:.1f} sd)")


def vec_moments(ctx, vs, d, what):
    vs = np.array(vs).reshape(-1, d)
    mean_is(ctx, vs.real, 0, what + " first moment (re)", 1 / (2 * d))
    mean_is(ctx, vs.imag, 0, what + " first moment (im)", 1 / (2 * d))
    mean_is(ctx, np.abs(vs) ** 2, 1 / d, what + " second moment")
    mean_is(ctx, (vs**2).real, 0, what + " phase")
    mean_is(ctx, (vs**2).imag, 0, what + " phase")
    mean_is(ctx, np.abs(vs) ** 4, 2 / (d * (d + 1)), what + " fourth moment")
    pairs = [(i, j) for i in range(d) for j in range(i)]
    x = np.array([[v[i] * np.conj(v[j]) for i, j in pairs] for v in vs])
    mean_is(ctx, x.real, 0, what + " coherences")
    mean_is(ctx, x.imag, 0, what + " coherences")
    mean_is(ctx, np.abs(x) ** 2, 1 / (d * (d + 1)), what + " mixed fourth moment")


def cov_law(ctx, vs, n, what):
    """Orbit of a Haar special-orthogonal conjugation: M = Q J Q^T."""
    m = 2 * n
    Ms = np.array([O.cov_majorana(v @ v.conj().T, n) for v in vs])
    iu = np.triu_indices(m, 1)
    x = np.array([M[iu] for M in Ms])
    if m > 2:
        mean_is(ctx, x, 0, what + " covariance mean")
    mean_is(ctx, x**2, 1 / (m - 1), what + " covariance second moment")


def run(ctx, spec, rng):
    name, n, N = spec["kind"], spec["n"], spec["N"]
    d = 2**n
    seeds = iter(rng.permutation(2**22)[:2 * N] * 1000 + int(rng.integers(0, 997)))

    def kw():
        return {"seed": int(next(seeds))} if spec.get("seeded") else {}

    if name == "haar_vec":
        vs = [np.asarray(ctx.call("random_qubit_pure_state", n, **kw())) for i in range(N)]
        vec_moments(ctx, vs, d, f"Haar vector n={n}")
    elif name == "haar_rho":
        rs = np.array([np.asarray(ctx.call("ff_random_states.random_qubit_state", n, **kw())) for i in range(N)])
        ii = np.arange(d)
        mean_is(ctx, rs[:, ii, ii].real, 1 / d, "mixed state diagonal")
        iu = np.triu_indices(d, 1)
        mean_is(ctx, rs[:, iu[0], iu[1]].real, 0, "mixed state coherences")
        mean_is(ctx, rs[:, iu[0], iu[1]].imag, 0, "mixed state coherences")
        pur = np.einsum("kij,kji->k", rs, rs).real
        mean_is(ctx, pur, 2 / (d + 1), "mixed state purity")
        # unitary invariance at second order: E|rho_ij|^2 and E rho_ii^2 follow from the purity
        q = 2 / (d + 1)
        c = (q - 1 / d) / (d * d - 1)
        mean_is(ctx, np.abs(rs[:, iu[0], iu[1]]) ** 2, c, "mixed state coherence strength")
        mean_is(ctx, rs[:, ii, ii].real ** 2, 1 / d**2 + c * (1 - 1 / d), "mixed state population spread")
    elif name == "so":
        m = 2 * n
        Om = O.omega(n)
        Qs = []
        for i in range(N):
            C = np.asarray(ctx.call("random_FF_rotation", n, returnOrb=True, **kw()))
            Qs.append((Om @ C @ Om.conj().T).real)
        Qs = np.array(Qs)
        f = Qs.reshape(N, -1)
        mean_is(ctx, f, 0, "orthogonal rotation first moment")
        mean_is(ctx, f**2, 1 / m, "orthogonal rotation second moment")
        mean_is(ctx, f**4, 3 / (m * (m + 2)) if m > 2 else 3 / 8, "orthogonal rotation fourth moment")
        if m > 2:
            prod = np.array([np.multiply.outer(q[:, 0], q[:, 1]).reshape(-1) for q in Qs])
            mean_is(ctx, prod, 0, "orthogonal rotation column correlations")
            mean_is(ctx, np.trace(Qs, axis1=1, axis2=2) ** 2, 1.0, "orthogonal rotation trace")
        mean_is(ctx, np.trace(Qs, axis1=1, axis2=2), 0.0, "orthogonal rotation trace")
    elif name in ("coeff", "coeffN"):
        Hs = np.array([np.asarray(ctx.call("random_H_generator", n, fixedN=(name == "coeffN"), **kw())) for _ in range(N)])
        A, B = Hs[:, n:, n:], Hs[:, :n, n:]
        ii, iu = np.arange(n), np.triu_indices(n, 1)
        D = A[:, ii, ii].real
        mean_is(ctx, D, 0, "coefficient diagonal mean")
        mean_is(ctx, D**2, 4.0, "coefficient diagonal variance")
        mean_is(ctx, D**4, 48.0, "coefficient diagonal fourth moment")
        for X, w in ((A, "hopping"), (B, "pairing")):
            if w == "pairing" and name == "coeffN":
                continue
            o = X[:, iu[0], iu[1]]
            for part, p in (("re", o.real), ("im", o.imag)):
                mean_is(ctx, p, 0, f"coefficient {w} {part} mean")
                mean_is(ctx, p**2, 2.0, f"coefficient {w} {part} variance")
                mean_is(ctx, p**4, 12.0, f"coefficient {w} {part} fourth moment")
            mean_is(ctx, o.real * o.imag, 0, f"coefficient {w} re-im correlation")
        # all independent entries together: no two of them, nor their squares, are correlated
        parts = [D / 2] + [A[:, iu[0], iu[1]].real / 2**0.5, A[:, iu[0], iu[1]].imag / 2**0.5]
        if name == "coeff":
            parts += [B[:, iu[0], iu[1]].real / 2**0.5, B[:, iu[0], iu[1]].imag / 2**0.5]
        X = np.hstack(parts)
        a, b = np.triu_indices(X.shape[1], 1)
        mean_is(ctx, X[:, a] * X[:, b], 0, "coefficient entries: correlation", 1.0)
        mean_is(ctx, (X[:, a] ** 2 - 1) * (X[:, b] ** 2 - 1), 0, "coefficient entries: correlation of the squares", 4.0)
    elif name in ("w0", "ffpure", "wnfix"):
        N = N // 2
        if name == "w0":
            vs = [np.asarray(ctx.call("random_FF_pure_state_W0", n, **kw())) for _ in range(N)]
        elif name == "ffpure":
            vs = [np.asarray(ctx.call("random_FF_state", n, pure=True, **kw())) for _ in range(N)]
        else:
            vs = [np.asarray(ctx.call("random_FF_pure_state_WN", n, N=2, **kw())) for _ in range(N)]
        cov_law(ctx, vs, n, f"Gaussian orbit ({name})")
    elif name in ("wn", "cn"):
        N = N // 2
        f = "random_FF_pure_state_WN" if name == "wn" else "random_FF_pure_state_CN"
        vs = [np.asarray(ctx.call(f, n, **kw())) for _ in range(N)]
        p = O.parity_diag(n)
        counts = {1: 0, -1: 0}
        for v in vs:
            counts[int(round(float(np.sum(p * np.abs(v[:, 0]) ** 2))))] += 1
        even = len([k for k in range(n + 1) if k % 2 == 0]) / (n + 1)
        cells(ctx, counts, {1: even, -1: 1 - even}, f"parity of a uniform particle number ({name})")
        cov_law(ctx, vs, n, f"Gaussian orbit ({name})")
    elif name in ("beta", "betaN"):
        bs, hs = [], []
        for _ in range(N // 2):
            rho, K = ctx.call("random_FF_state", n, fixedN=(name == "betaN"), returnH=True, **kw())
            one = [1 << i for i in range(n)]
            hs.append(np.asarray(K)[np.ix_(one, one)] - np.asarray(K)[0, 0] * np.eye(n))
            w, U = np.linalg.eigh(np.asarray(K))
            D = np.real(np.diag(U.conj().T @ np.asarray(rho) @ U))
            k = int(np.argmax(np.where(D > 1e-9 * D[0], w, -np.inf)))
            if k == 0 or w[k] - w[0] < 1e-9:
                bs.append(np.inf)
                continue
            bs.append(np.log(D[0] / D[k]) / (w[k] - w[0]))
        bs = np.array(bs)
        for t in (0.2, 0.5, 1.0, 2.0):
            mean_is(ctx, (bs > t).astype(float), math.exp(-t), f"inverse temperature above {t}")
            # the temperature does not depend on the Hamiltonian
            one = np.array([[h[np.diag_indices(n)].real.sum(), np.abs(h[0, 0]), np.abs(h[0, -1]), np.vdot(h, h).real] for h in hs])
            mean_is(ctx, ((bs > 0.7) - math.exp(-0.7))[:, None] * np.sign(one - np.median(one, 0)), 0, "inverse temperature against the Hamiltonian")
        if name == "betaN":
            # number conserving: K = 2 sum A_ij a_i^dag a_j - tr A, read off the one-particle block
            hs = np.array(hs)
            D = hs[:, np.arange(n), np.arange(n)].real
            mean_is(ctx, D, 0, "one-particle energies mean")
            mean_is(ctx, D**2, 16.0, "one-particle energies variance")
            mean_is(ctx, D**4, 768.0, "one-particle energies fourth moment")
            if n > 1:
                iu = np.triu_indices(n, 1)
                o = hs[:, iu[0], iu[1]]
                for p in (o.real, o.imag):
                    mean_is(ctx, p, 0, "one-particle hopping mean")
                    mean_is(ctx, p**2, 8.0, "one-particle hopping variance")
                mean_is(ctx, o.real * o.imag, 0, "one-particle hopping re-im correlation")
    elif name == "dirichlet":
        S = np.array([np.asarray(ctx.call("random_FF_state_rotPDF", n, returnS=True, **kw())[1]) for _ in range(N // 2)])
        mean_is(ctx, S, 1 / d, "spectrum mean")
        mean_is(ctx, S**2, 2 / (d * (d + 1)), "spectrum second moment")
        mean_is(ctx, S[:, 0] * S[:, 1], 1 / (d * (d + 1)), "spectrum correlation")
    elif name == "rotpdf_basis":
        rs = np.array([np.asarray(ctx.call("random_FF_state_rotPDF", n, **kw())) for _ in range(N // 2)])
        ii = np.arange(d)
        mean_is(ctx, rs[:, ii, ii].real, 1 / d, "rotated distribution diagonal")
        Ms = np.array([O.cov_majorana(r, n) for r in rs])
        iu = np.triu_indices(2 * n, 1)
        x = Ms[:, iu[0], iu[1]]
        mean_is(ctx, x, 0, "rotated distribution covariance mean")
        # E[(1-2n)^2-like]: tr M^T M = sum_k 2 (sum_x s_x (-1)^{x_k})^2, mean 2 n/(d+1); equal on all pairs
        mean_is(ctx, x**2, (2 * n / (d + 1)) / (2 * n * (2 * n - 1)), "rotated distribution covariance strength")
    elif name == "bits":
        for k in range(0, n + 1):
            counts = {}
            for _ in range(N * 7):
                b = tuple(int(x) for x in ctx.call("generate_random_bitstring", n, k))
                counts[b] = counts.get(b, 0) + 1
            sup = [tuple(1 if i in c else 0 for i in range(n)) for c in itertools.combinations(range(n), k)]
            cells(ctx, counts, {s: 1 / len(sup) for s in sup}, f"bit strings of weight {k}")
    elif name == "bits_long":
        for k in sorted({1, 2, 3, n // 4, n // 2, n - n // 4, n - 2, n - 1}):
            B = np.array([np.asarray(ctx.call("generate_random_bitstring", n, k)) for _ in range(N)], dtype=float)
            mean_is(ctx, B, k / n, f"bit strings of weight {k} of {n}: positions", k / n * (1 - k / n))
            i, j = np.triu_indices(n, 1)
            p = k * (k - 1) / (n * (n - 1))
            mean_is(ctx, B[:, i] * B[:, j], p, f"bit strings of weight {k} of {n}: pairs", p * (1 - p))
            # exact moments of the number of runs of ones
            runs = B[:, 0] + ((B[:, 1:] == 1) & (B[:, :-1] == 0)).sum(1)
            mean_is(ctx, runs, k * (n - k + 1) / n, f"bit strings of weight {k} of {n}: runs", 1e-6)
            if 3 <= k <= n - 3:
                p = k * (k - 1) * (k - 2) / (n * (n - 1) * (n - 2))
                t = [rng.choice(n, 3, replace=False) for _ in range(60)]
                mean_is(ctx, np.array([B[:, a] * B[:, b] * B[:, c] for a, b, c in t]).T, p, f"bit strings of weight {k} of {n}: triples", p * (1 - p))
    elif name == "chp":
        counts = {}
        for _ in range(N * (1 if n == 1 else 2)):
            v = np.asarray(ctx.call("random_CHP_state", n)).reshape(-1).astype(complex)
            e = np.round(O.pauli_expectations(np.outer(v, v.conj())).real).astype(int)
            counts[tuple(e.tolist())] = counts.get(tuple(e.tolist()), 0) + 1
        K = {1: 6, 2: 60}[n]
        if len(counts) != K:
            ctx.fail(f"stabilizer states: {len(counts)} different states seen, there are {K}")
        cells(ctx, counts, {c: 1 / K for c in counts}, f"stabilizer states n={n}")
    elif name == "chp_large":
        # support dimensions in several local bases (exact law), purities of every cut (exact mean of a 2-design)
        loc = [np.eye(2), np.array([[1, 1], [1, -1]]) / math.sqrt(2), np.array([[1, -1j], [1, 1j]]) / math.sqrt(2)]
        picks = [[0] * n] + [list(rng.integers(0, 3, n)) for _ in range(4)]
        binom = [1.0]
        for k in range(n):
            binom.append(binom[-1] * (2 ** (n - k) - 1) / (2 ** (k + 1) - 1))
        law = np.array([b * 2.0 ** (k * (k + 1) / 2) for k, b in enumerate(binom)])
        law = {k: float(x) for k, x in enumerate(law / law.sum())}
        floor = 0  # rare small supports are one cell
        while sum(law[k] for k in range(floor + 1)) * (N // 2) < 60:
            floor += 1
        law = {k: law[k] if k > floor else sum(law[j] for j in range(floor + 1)) for k in range(floor, n + 1)}
        counts = [{} for _ in picks]
        cuts = [tuple(c) for a in range(1, n // 2 + 1) for c in itertools.combinations(range(n), a)]
        pur = []
        for _ in range(N // 2):
            psi = np.asarray(ctx.call("random_CHP_state", n)).reshape((2,) * n).astype(complex)
            for c, pick in zip(counts, picks):
                x = psi
                for q, b in enumerate(pick):
                    x = np.moveaxis(np.tensordot(loc[b], x, axes=(1, q)), 0, q)
                k = int(round(math.log2(max(1, int((np.abs(x) > 1e-3).sum())))))
                k = max(k, floor)
                c[k] = c.get(k, 0) + 1
            row = []
            for c in cuts:
                m = np.moveaxis(psi, c, range(len(c))).reshape(2 ** len(c), -1)
                r = m @ m.conj().T
                row.append(float(np.vdot(r, r).real))
            pur.append(row)
        for c, pick in zip(counts, picks):
            cells(ctx, c, law, f"stabilizer states n={n}: support dimension")
        mu = [(2.0 ** len(c) + 2.0 ** (n - len(c))) / (2.0**n + 1) for c in cuts]
        mean_is(ctx, np.array(pur), mu, f"stabilizer states n={n}: purity of every cut", 1e-4)
    elif name == "randH":
        # the coefficients of the Hamiltonian are read off the logarithm of the state
        al = O.alphas(n)
        scale_ = 2.0 ** (2 - n)
        ops = {"diagonal": [], "hopping": [], "pairing": []}
        for j in range(n):
            ops["diagonal"].append(al[j] @ al[j + n] - np.eye(d) / 2)
            for l in range(j + 1, n):
                ops["hopping"].append(al[j] @ al[l + n])
                ops["pairing"].append(al[j + n] @ al[l + n])
        cs = {k: [] for k in ops}
        for _ in range(N // 2):
            r = np.asarray(ctx.call("random_FF_state_randH", n, **kw()))
            w, U = np.linalg.eigh(r)
            if w[0] < 1e-12 * w[-1]:  # too cold for the logarithm
                w = np.maximum(w, 1e-300)
            M = -(U * np.log(w)) @ U.conj().T
            for k, v in ops.items():
                cs[k].append([np.vdot(x, M) / np.vdot(x, x).real / (2 * scale_) for x in v])
        for k, v in cs.items():
            v = np.array(v)
            # medians and signs, not moments: the coldest states have no exact logarithm
            for part, x in (("re", v.real), ("im", v.imag)):
                if k == "diagonal" and part == "im":
                    continue
                sd = 2.0 if k == "diagonal" else math.sqrt(2.0)
                for t in (-1.5, -0.5, 0.0, 0.5, 1.5):
                    mean_is(ctx, (x > t * sd).astype(float), 0.5 * math.erfc(t / math.sqrt(2)), f"random Hamiltonian {k} {part} above {t} sd")
            if k != "diagonal":
                mean_is(ctx, (v.real * v.imag > 0).astype(float), 0.5, f"random Hamiltonian {k} quadrants")
    ctx.sample({"law": name, "n": n, "samples": N})
