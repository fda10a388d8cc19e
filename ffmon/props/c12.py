"""Every random state generator returns a member of the class it is named after."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C12"
CONTRACTS = contracts.pick("generate_random_bitstring")
RULE = (
    "every generator x sizes 1..5 (up to 8 for plain vectors) x many seeds and unseeded draws: shape, normalisation, "
    "Hermiticity, positivity, purity, definite parity, Gaussianity (covariance spectrum, 4-point functions), stabilizer "
    "property, reported spectrum, Hamming weight. Distinct = distinct (generator, options, seed)."
)
GENS = ("qubit", "qubit_pure", "chp", "ff", "ffN", "ff_pure", "randH", "rotPDF", "W0", "WN", "WNall", "CN")
FLOORS = {f"member {g}": 25 for g in GENS} | {"generate_random_bitstring": 80, "Gaussian": 150}


def cases(tier, seed):
    r = crng(tier, seed, 12)
    out = []
    for g in GENS:
        for k in range(scale(tier, 34, 500)):
            n = int(r.choice([1, 1, 2, 2, 3, 3, 4, 5]))
            out.append({"kind": g, "n": n, "s": int(r.integers(0, 2**31 - 2)), "seeded": bool(r.random() < 0.6), "k": k})
        if g in ("qubit", "qubit_pure", "chp"):
            out += [{"kind": g, "n": n, "s": 5 + n, "seeded": True, "k": -1} for n in range(5, 8)]
        elif g != "WNall":
            out += [{"kind": g, "n": n, "s": 5 + n, "seeded": True, "k": -1} for n in (5, 6)]
    for k in range(scale(tier, 90, 600)):  # many draws: rare outcomes of the generators
        out.append({"kind": "burst", "g": ("W0", "WN", "CN", "ff_pure", "rotPDF", "randH")[k % 6], "n": 1 + k // 6 % 3, "k": k, "cost": 5})
    for k in range(scale(tier, 24, 200)):  # many amplitudes
        out.append({"kind": "burst", "g": ("W0", "WN", "CN", "ff_pure")[k % 4], "n": (4, 5, 6)[k // 4 % 3], "k": k, "N": 12, "cost": 8})
    for k in range(scale(tier, 90, 1200)):
        out.append({"kind": "bits", "k": k})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def check_mixed(ctx, r, d):
    r = np.asarray(r)
    ctx.expect(r.shape == (d, d), "shape: density matrix", got=r.shape)
    ctx.close(np.trace(r), 1.0, "unit trace", 0, 1e-11)
    ctx.close(r, r.conj().T, "Hermitian", 0, 1e-11)
    w = np.linalg.eigvalsh((r + r.conj().T) / 2)
    ctx.expect(w.min() > -1e-9, "positive", w=w)
    return r, w


def check_pure(ctx, v, d, tol=1e-11):
    v = np.asarray(v)
    ctx.expect(v.shape == (d, 1), "shape: column vector", got=v.shape)
    ctx.close(np.linalg.norm(v), 1.0, "normalised", 0, tol)
    return v


def parity_of(ctx, v, n, what):
    """+1/-1 if the vector has definite parity."""
    p = O.parity_diag(n)[:, None]
    e = float(np.real(np.vdot(v, p * v)))
    ctx.close(abs(e), 1.0, f"{what} has definite parity", 0, 1e-11)
    return round(e)


def gaussian(ctx, rng, rho, n):
    ops = [x.astype(complex) for x in O.majoranas(n)]
    G = O.corr(rho, ops)
    for _ in range(4):
        m = 4 if n < 3 or rng.random() < 0.6 else 6
        ix = [int(x) for x in (rng.permutation(2 * n)[:m] if m <= 2 * n else rng.integers(0, 2 * n, m))]
        X = np.triu(G[np.ix_(ix, ix)], 1)
        x = rho
        for i in ix:
            x = x @ ops[i]
        ctx.close(O.pfaffian(X - X.T), np.trace(x), "Gaussian", 0, 1e-11)


def pure_gaussian(ctx, rng, v, n):
    M = O.cov_majorana(v @ v.conj().T, n)
    ctx.close(M.T @ M, np.eye(2 * n), "Gaussian", 0, 1e-11)
    gaussian(ctx, rng, v @ v.conj().T, n)


def run(ctx, spec, rng):
    g = spec["kind"]
    if g == "scenario":
        return scenarios.run(ctx, spec, rng)
    if g == "bits":
        n = int(rng.integers(1, 15) if rng.random() < 0.7 else rng.integers(15, 400))
        for k in {0, n, int(rng.integers(0, n + 1))}:
            b = ctx.call("generate_random_bitstring", n, k)
            ctx.expect(b is not None, "bit string produced")
        ctx.call("generate_random_bitstring", n, n + 1 + int(rng.integers(3)))
        ctx.call("generate_random_bitstring", n, -1 - int(rng.integers(3)))
        return
    n, d = spec["n"], 2 ** spec["n"]
    if g == "burst":
        g = spec["g"]
        s0 = int(rng.integers(2**30))
        for i in range(spec.get("N", 40)):
            kw = {"seed": s0 + i} if i % 2 else {}
            if g in ("rotPDF", "randH"):
                r, _ = check_mixed(ctx, ctx.call(f"random_FF_state_{g}", n, **kw), d)
                P = O.parity_diag(n)
                ctx.close(r * P[:, None], r * P[None, :], "definite parity sectors", 0, 1e-11)
                continue
            v = ctx.call("random_FF_state", n, pure=True, **kw) if g == "ff_pure" else ctx.call(f"random_FF_pure_state_{g}", n, **kw)
            v = check_pure(ctx, v, d)
            p = parity_of(ctx, v, n, "pure Gaussian state")
            if g in ("W0", "ff_pure"):
                ctx.expect(p == 1, "even parity: rotated vacuum")
            M = O.cov_majorana(v @ v.conj().T, n)
            ctx.close(M.T @ M, np.eye(2 * n), "Gaussian", 0, 1e-10)
        ctx.nontrivial(g, n, s0)
        return
    kw = {"seed": spec["s"]} if spec["seeded"] else {}
    if g == "qubit":
        check_mixed(ctx, ctx.call("ff_random_states.random_qubit_state", n, **kw), d)
    elif g == "qubit_pure":
        check_pure(ctx, ctx.call("random_qubit_pure_state", n, **kw), d)
    elif g == "chp":
        v = check_pure(ctx, ctx.call("random_CHP_state", n), d, 1e-5)
        e = O.pauli_expectations(v.astype(complex) @ v.conj().T.astype(complex))
        a = np.abs(e)
        ctx.expect(np.all((a < 1e-4) | (np.abs(a - 1) < 1e-4)), "stabilizer: expectations are 0 or +-1", e=e)
        ctx.expect(int(np.sum(a > 0.5)) == d, "stabilizer: 2^n stabilizing operators")
    elif g in ("ff", "ffN"):
        r, w = check_mixed(ctx, ctx.call("random_FF_state", n, fixedN=(g == "ffN"), **kw), d)
        P = O.parity_diag(n)
        ctx.close(r * P[:, None], r * P[None, :], "definite parity sectors", 0, 1e-11)
        gaussian(ctx, rng, r, n)
        if g == "ffN":
            N = O.number_op(n)
            ctx.close(r @ N, N @ r, "commutes with the particle number", 0, 1e-11)
    elif g == "randH":
        r, w = check_mixed(ctx, ctx.call("random_FF_state_randH", n, **kw), d)
        gaussian(ctx, rng, r, n)
    elif g == "rotPDF":
        out = ctx.call("random_FF_state_rotPDF", n, True, **kw)
        ctx.expect(isinstance(out, tuple) and len(out) == 2, "state and spectrum returned")
        r, w = check_mixed(ctx, out[0], d)
        s = np.asarray(out[1])
        ctx.expect(s.shape == (d,) and s.min() >= 0 and abs(s.sum() - 1) < 1e-9, "reported distribution valid", s=s)
        ctx.close(w, np.sort(s), "spectrum is the reported distribution", 0, 1e-11)
        P = O.parity_diag(n)
        ctx.close(r * P[:, None], r * P[None, :], "definite parity sectors", 0, 1e-11)
        # the rotation maps the Fock basis to a Gaussian basis: every eigenvector is Gaussian
        ww, U = np.linalg.eigh(r)
        if np.min(np.diff(ww)) > 1e-5:
            k = int(rng.integers(d))
            pure_gaussian(ctx, rng, U[:, [k]], n)
        check_mixed(ctx, ctx.call("random_FF_state_rotPDF", n, **kw), d)
    elif g in ("ff_pure", "W0"):
        v = ctx.call("random_FF_state", n, pure=True, **kw) if g == "ff_pure" else ctx.call("random_FF_pure_state_W0", n, **kw)
        v = check_pure(ctx, v, d)
        ctx.expect(parity_of(ctx, v, n, "rotated vacuum") == 1, "even parity: rotated vacuum")
        pure_gaussian(ctx, rng, v, n)
    elif g in ("WN", "WNall"):
        for N in (range(n + 1) if g == "WNall" else [None]):
            v = check_pure(ctx, ctx.call("random_FF_pure_state_WN", n, N, **kw) if N is not None else ctx.call("random_FF_pure_state_WN", n, **kw), d)
            p = parity_of(ctx, v, n, "rotated occupation state")
            if N is not None:
                ctx.expect(p == (-1) ** N, "parity of the particle number: rotated occupation state", N=N)
            pure_gaussian(ctx, rng, v, n)
    elif g == "CN":
        v = check_pure(ctx, ctx.call("random_FF_pure_state_CN", n, **kw), d)
        parity_of(ctx, v, n, "rotated occupation state")
        pure_gaussian(ctx, rng, v, n)
    ctx.checks[f"member {g}"] += 1
    ctx.nontrivial(g, n, spec["s"], spec["seeded"], spec["k"])
    ctx.sample(spec)


_ = (gen, pick)
