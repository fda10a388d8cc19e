"""Casting of wavefunctions, distributions and density matrices."""

import numpy as np

from .. import contracts, gen, oracles as O, scenarios
from .util import crng, pick, scale

ID = "C16"
CONTRACTS = contracts.pick("cast_to_density_matrix", "cast_to_pdf")
RULE = (
    "17 density-matrix classes, 5 wavefunction classes and 11 distribution classes in every container (1-D, column, row, "
    "list, tuple-of-floats, real, complex, integer, Fortran order, read-only, strided), dimensions 2..300 incl. "
    "non-powers of two, plus valid matrices whose populations are negative by rounding; cross-representation agreement "
    "and idempotence; matrices of dimension 2..128 that are no states (trace off by 1e-4 or more, one entry not Hermitian, one "
    "negative eigenvalue down to -1e-9, not square).  Distinct = argument digests."
)
FLOORS = {"cast_to_density_matrix": 400, "cast_to_pdf": 400, "idempotent": 200}
BAD_MATRICES = ("trace", "not_hermitian", "indefinite", "rectangular")
FORMS = ("1d", "col", "row", "list", "collist", "readonly", "strided")


def cases(tier, seed):
    r = crng(tier, seed, 16)
    out = []
    for k in range(scale(tier, 260, 4000)):
        out.append({"kind": "wf", "m": pick(r, gen.WF_MODES), "d": int(r.integers(2, 20)), "f": pick(r, FORMS), "k": k})
        out.append({"kind": "pdf", "m": pick(r, gen.PDF_MODES), "d": int(r.integers(2, 20)), "f": pick(r, FORMS), "k": k})
    for s in gen.STATE_MODES:
        for k in range(scale(tier, 12, 150)):
            out.append({"kind": "dm", "m": s, "n": int(r.integers(1, 5)), "k": k})
    for k in range(scale(tier, 40, 500)):
        out.append({"kind": "refused", "k": k})
        out.append({"kind": "nearbasis", "k": k})
        out.append({"kind": "rounding", "n": int(r.integers(1, 5)), "k": k})
    for m in BAD_MATRICES:
        for k in range(scale(tier, 28, 300)):
            out.append({"kind": "bad", "m": m, "n": 1 + k % 7, "k": k})
    for k in range(scale(tier, 20, 200)):
        out.append({"kind": "wf", "m": pick(r, gen.WF_MODES), "d": int(r.integers(20, 300)), "f": pick(r, FORMS), "k": k})
        out.append({"kind": "pdf", "m": pick(r, gen.PDF_MODES), "d": int(r.integers(20, 300)), "f": pick(r, FORMS), "k": k})
        out.append({"kind": "dm", "m": pick(r, gen.STATE_MODES), "n": int(r.integers(5, 8)), "k": k, "cost": 5})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def form(rng, x, f):
    if f == "col":
        return x.reshape(-1, 1)
    if f == "row":
        return x.reshape(1, -1)
    if f == "list":
        return x.tolist()
    if f == "collist":
        return [[v] for v in x.tolist()]
    if f == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y
    if f == "strided":
        y = np.zeros(2 * len(x), dtype=x.dtype)
        y[::2] = x
        return y[::2]
    return x


def run(ctx, spec, rng):
    k = spec["kind"]
    if k == "scenario":
        return scenarios.run(ctx, spec, rng)
    if k == "refused":
        # neither a unit vector nor a distribution: signs or phases on probabilities, other norms
        d = int(rng.integers(2, 20))
        m = pick(rng, ["signed", "phases", "scaled", "scaled_pdf", "imag"])
        p = gen.pdf(rng, d, pick(rng, ["dirichlet", "zeros", "uniform", "dyadic", "geometric"]))
        if np.linalg.norm(p) > 0.999:
            p = np.full(d, 1 / d)
        i = int(rng.choice(np.flatnonzero(p)))
        if m == "signed":
            p = p * np.where(rng.random(d) < 0.3, -1, 1)
            p[i] = -abs(p[i])
        elif m == "phases":
            p = p * np.exp(1j * rng.uniform(0.1, 6.1, d))
        elif m == "imag":
            p = p * 1j
        else:
            c = float(pick(rng, [0.5, 0.9, 0.999, 1.001, 1.3]))
            p = (p if m == "scaled_pdf" else gen.wavefunction(rng, d, "generic")) * c
            if min(abs(np.linalg.norm(p) - 1), abs(np.abs(p).sum() - 1)) < 5e-4:
                return
        x = form(rng, p, pick(rng, FORMS))
        ctx.refuses((ValueError, AssertionError), "cast_to_density_matrix", x)
        ctx.refuses((ValueError, AssertionError), "cast_to_pdf", x)
        ctx.nontrivial(m, p)
        return
    if k == "bad":
        x = gen.bad_state(rng, spec["m"], spec["n"])
        x = pick(rng, [x, x.copy(order="F"), x.tolist()])
        ctx.refuses((ValueError, AssertionError), "cast_to_density_matrix", x)
        ctx.refuses((ValueError, AssertionError), "cast_to_pdf", x)
        ctx.nontrivial(spec["m"], x)
        return
    if k == "nearbasis":
        # nearly a basis state, the norm off by rounding of single precision: exactly v v^dagger all the same
        d = int(rng.integers(2, 20))
        v = gen.wavefunction(rng, d, "generic") * 10.0 ** rng.uniform(-6, -2.5)
        v[int(rng.integers(d)) if rng.random() < 0.6 else 0] = pick(rng, [1, -1, 1j, np.exp(1j * rng.uniform(0, 6.28))]) * 1.0
        v = v / np.linalg.norm(v) * (1 + 10.0 ** rng.uniform(-9, -5.3) * rng.choice([-1, 1]))
        x = form(rng, v, pick(rng, FORMS))
        r = np.asarray(ctx.call("cast_to_density_matrix", x))
        ctx.close(r, np.outer(v, v.conj()), "projector of the wavefunction", 0, 1e-13)
        ctx.close(ctx.call("cast_to_pdf", x), np.abs(v) ** 2, "Born probabilities", 0, 1e-12)
        ctx.nontrivial(v)
        return
    if k == "wf":
        v = gen.wavefunction(rng, spec["d"], spec["m"])
        if not np.any(v.imag) and rng.random() < 0.7:
            v = v.real
        if spec["m"] == "basis" and np.all(v == np.rint(v.real)) and rng.random() < 0.5:
            v = np.rint(v.real).astype(int)
        x = form(rng, v, spec["f"])
        r = np.asarray(ctx.call("cast_to_density_matrix", x))
        p = np.asarray(ctx.call("cast_to_pdf", x))
        ctx.close(r, np.outer(v, np.conj(v)), "projector of the wavefunction", 0, 1e-12)
        ctx.close(p, np.abs(v) ** 2, "Born probabilities", 0, 1e-12)
        ph = np.exp(1j * rng.uniform(0, 6.28))
        ctx.close(ctx.call("cast_to_density_matrix", v * ph), r, "global phase drops out", 0, 1e-12)
    elif k == "pdf":
        q = gen.pdf(rng, spec["d"], spec["m"])
        x = form(rng, q, spec["f"])
        r = np.asarray(ctx.call("cast_to_density_matrix", x))
        p = np.asarray(ctx.call("cast_to_pdf", x))
        ctx.close(r, np.diag(q), "diagonal matrix of the distribution", 0, 1e-12)
        ctx.close(p, q, "distribution unchanged", 0, 1e-12)
    elif k == "dm":
        r0 = gen.state(rng, spec["n"], spec["m"])
        if not np.any(r0.imag) and rng.random() < 0.5:
            r0 = r0.real.copy()
        x = pick(rng, [r0, np.asfortranarray(r0), r0.tolist(), r0.T.copy().T])
        r = np.asarray(ctx.call("cast_to_density_matrix", x))
        p = np.asarray(ctx.call("cast_to_pdf", x))
        ctx.close(r, r0, "density matrix unchanged", 0, 1e-12)
        ctx.close(p, np.clip(np.diag(r0).real, 0, None), "populations", 0, 1e-12)
    else:
        # projectors built numerically: populations that should be zero come out as +-1e-18
        d = 2 ** spec["n"]
        U = gen.unitary(rng, d)
        B = np.zeros((d, d), dtype=complex)
        B[0, 0] = 1
        r0 = U.conj().T @ (U @ B @ U.conj().T) @ U
        r0 = (r0 + r0.conj().T) / 2
        i = int(rng.integers(1, d))
        r0[i, i] = -abs(r0[i, i].real) - 1e-17
        p = np.asarray(ctx.call("cast_to_pdf", r0))
        ctx.expect(p.min() >= 0, "probabilities are never negative", p=p)
        r = np.asarray(ctx.call("cast_to_density_matrix", r0))
    ctx.close(ctx.call("cast_to_density_matrix", r), r, "idempotent", 0, 1e-12)
    ctx.expect(p.ndim == 1 and p.dtype.kind == "f", "distribution is a real vector", dtype=p.dtype, shape=p.shape)
    ctx.close(p.sum(), 1.0, "distribution normalised", 0, 1e-6)
    ctx.close(ctx.call("cast_to_pdf", r), p, "casting the density matrix gives the same distribution", 0, 1e-12)
    ctx.sample(spec)
