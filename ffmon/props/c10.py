"""Wick's theorem, Gaussian evolution and reduced states across modules."""

import itertools

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C10"
CONTRACTS = contracts.pick("compute_2corr_matrix", "pf", "generate_gaussian_state", "correlation_matrix")
RULE = (
    "Gaussian states from every library source (thermal of all block classes and temperatures, random mixed/pure/"
    "fixed-number generators, rotated vacuum and occupation states), every 4-point index set for n<=2 and sampled 4-, 6- "
    "and 8-point products of ladder, Majorana and mixed linear combinations (repeated indices included); Gaussian "
    "evolution by thermal/unitary conjugation; reductions onto the leading sites. Non-Gaussian controls must violate the "
    "identity. Distinct = (state, index set) digests."
)
FLOORS = {"Wick": 400, "evolution": 60, "reduction": 60, "control": 20, "odd moments": 100}
SOURCES = ("thermal", "thermal", "ff", "ffN", "ffpure", "randH", "W0", "WN", "CN", "W0vec")


def cases(tier, seed):
    r = crng(tier, seed, 10)
    out = []
    for k in range(scale(tier, 260, 4000)):
        out.append({"kind": "wick", "n": int(r.choice([1, 2, 2, 3, 3, 4])), "src": pick(r, SOURCES), "k": k})
    for k in range(scale(tier, 80, 1200)):
        out.append({"kind": "evolve", "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 80, 1200)):
        out.append({"kind": "reduce", "n": int(r.integers(2, 6)), "src": pick(r, SOURCES), "k": k})
    for k in range(scale(tier, 30, 300)):
        out.append({"kind": "control", "n": int(r.integers(2, 4)), "k": k})
    for k in range(scale(tier, 4, 40)):
        out.append({"kind": "wick", "n": 5, "src": pick(r, SOURCES), "k": k, "cost": 50})
    return out + scenarios.specs(["chain"], scale(tier, 4, 40))


def gaussian(ctx, rng, n, src):
    s = int(rng.integers(0, 2**31 - 2))
    if src == "thermal":
        A, B = gen.herm_skew(rng, n, pick(rng, gen.HERM_MODES), pick(rng, gen.SKEW_MODES))
        H = O.H_matrix(A, B)
        m = max(np.abs(np.linalg.eigvalsh((H + H.conj().T) / 2)).max(), 1e-12)
        H = H * min(1.0, 10 / m)
        if rng.random() < 0.5:
            H = ctx.call("build_H", n, H[n:, n:], H[:n, n:])
        r = ctx.call("generate_gaussian_state", n, H)
    elif src == "ff":
        r = ctx.call("random_FF_state", n, seed=s)
    elif src == "ffN":
        r = ctx.call("random_FF_state", n, fixedN=True, seed=s)
    elif src == "ffpure":
        r = ctx.call("random_FF_state", n, seed=s, pure=True)
    elif src == "randH":
        r = ctx.call("random_FF_state_randH", n, seed=s)
    elif src in ("W0", "W0vec"):
        r = ctx.call("random_FF_pure_state_W0", n, seed=s)
    elif src == "WN":
        r = ctx.call("random_FF_pure_state_WN", n, N=int(rng.integers(n + 1)), seed=s)
    else:
        r = ctx.call("random_FF_pure_state_CN", n, seed=s)
    r = np.asarray(r)
    if r.shape == (2**n, 1):
        r = r @ r.conj().T
    ctx.expect(r.shape == (2**n, 2**n), "state dimension", src=src)
    return r


def moment(rho, ops):
    x = rho
    for o in ops:
        x = x @ o
    return np.trace(x)


def contraction(G, idx):
    m = len(idx)
    X = np.zeros((m, m), dtype=complex)
    for a in range(m):
        for b in range(a + 1, m):
            X[a, b] = G[idx[a], idx[b]]
            X[b, a] = -X[a, b]
    return X


def run(ctx, spec, rng):
    kind = spec["kind"]
    if kind == "scenario":
        return scenarios.run(ctx, spec, rng)
    n = spec["n"]
    if kind == "wick":
        rho = gaussian(ctx, rng, n, spec["src"])
        which = pick(rng, ["ladder", "majorana", "linear"])
        ops = [x.astype(complex) for x in (O.majoranas(n) if which == "majorana" else O.alphas(n))]
        if which == "linear":
            ops = list(np.tensordot(gen.cplx(rng, 2 * n, 2 * n) / 2, np.array(ops), 1))
        G = np.asarray(ctx.call("compute_2corr_matrix", rho, n, ops))
        sets = list(itertools.product(range(2 * n), repeat=4)) if n <= 1 else []
        for _ in range(10):
            m = int(pick(rng, [4, 4, 4, 6, 6, 8] if n > 1 else [4, 6]))
            if rng.random() < 0.6 and m <= 2 * n:
                sets.append(tuple(int(x) for x in rng.permutation(2 * n)[:m]))
            else:
                sets.append(tuple(int(x) for x in rng.integers(0, 2 * n, m)))
        for idx in sets:
            want = moment(rho, [ops[i] for i in idx])
            X = contraction(G, idx)
            got = ctx.call("pf", X) if len(idx) <= 6 else O.pfaffian(X)
            ctx.close(got, want, "Wick", 0, 1e-8 * 3 ** len(idx), idx=idx, src=spec["src"])
            ctx.nontrivial("wick", rho, idx, which)
        for m in (1, 3):
            idx = [int(x) for x in rng.integers(0, 2 * n, m)]
            ctx.close(moment(rho, [ops[i] for i in idx]), 0.0, "odd moments", 0, 1e-8 * 3**m)
        ctx.sample({"n": n, "src": spec["src"], "ops": which, "example": sets[-1]})
    elif kind == "evolve":
        src = pick(rng, SOURCES)
        rho = gaussian(ctx, rng, n, src)
        A, B = gen.herm_skew(rng, n, pick(rng, gen.HERM_MODES), pick(rng, gen.SKEW_MODES))
        H = np.asarray(ctx.call("build_H", n, A, B))
        m = max(np.abs(np.linalg.eigvalsh((H + H.conj().T) / 2)).max(), 1e-12)
        H = H * min(1.0, 3 / m)
        al = ctx.call("jordan_wigner_alphas", n)
        K = np.asarray(ctx.call("build_op", n, H, al))
        t = float(rng.uniform(0.05, 2))
        W = O.unitary_exp(K * t)
        # W^dag a W = exp(-2 i t H) a  (from [K, a] = -2 H a)
        w, U = np.linalg.eigh((H + H.conj().T) / 2)
        C = (U * np.exp(-2j * t * w)) @ U.conj().T
        one = np.asarray(ctx.call("correlation_matrix", W @ rho @ W.conj().T))
        two = C @ np.asarray(ctx.call("correlation_matrix", rho)) @ C.T
        ctx.close(one, two, "evolution of the two-point matrix", 0, 1e-8)
        rot = ctx.call("rotate_operators", C, al)
        i = int(rng.integers(2 * n))
        ctx.close(rot[i], W.conj().T @ al[i] @ W, "evolution of the operators", 0, 1e-8)
        ctx.expect(bool(ctx.call("is_symp", C)), "evolution: matrix is symplectic")
        ctx.checks["evolution"] += 1
    elif kind == "reduce":
        rho = gaussian(ctx, rng, n, spec["src"])
        m = int(rng.integers(1, n))
        red = np.asarray(ctx.call("partial_trace_over_2", rho, 2**m))
        idx = list(range(m)) + list(range(n, n + m))
        full = np.asarray(ctx.call("correlation_matrix", rho))[np.ix_(idx, idx)]
        ctx.close(ctx.call("correlation_matrix", red), full, "reduction keeps the leading sites' correlations", 0, 1e-9 + 1e-8 * 2**m)
        # the trailing sites: bilinears do not see the Jordan-Wigner string
        red2 = np.asarray(ctx.call("partial_trace_over_1", rho, 2**m))
        idx = list(range(n - m, n)) + list(range(2 * n - m, 2 * n))
        full = np.asarray(ctx.call("correlation_matrix", rho))[np.ix_(idx, idx)]
        ctx.close(ctx.call("correlation_matrix", red2), full, "reduction keeps the trailing sites' correlations", 0, 1e-9)
        ops = [x.astype(complex) for x in O.majoranas(m)]
        G = O.corr(red, ops)
        for _ in range(6):
            k = int(pick(rng, [4, 6] if m > 1 else [4]))
            ix = [int(x) for x in (rng.permutation(2 * m)[:k] if k <= 2 * m else rng.integers(0, 2 * m, k))]
            ctx.close(O.pfaffian(contraction(G, ix)), moment(red, [ops[i] for i in ix]), "reduction is Gaussian", 0, 1e-7)
        ctx.checks["reduction"] += 1
    else:  # control: the monitor can tell a non-Gaussian state
        v = np.zeros(2**n, dtype=complex)
        v[0] = v[-1] = 1 / np.sqrt(2)
        rho = np.diag(np.abs(v) ** 2).astype(complex)
        ops = [x.astype(complex) for x in O.alphas(n)]
        G = np.asarray(ctx.call("compute_2corr_matrix", rho, n, ops))
        idx = (0, n, 1, n + 1)
        dev = abs(moment(rho, [ops[i] for i in idx]) - complex(ctx.call("pf", contraction(G, idx))))
        ctx.expect(dev > 0.1, "control: a classically correlated state passed as Gaussian")
