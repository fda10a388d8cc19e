"""Interpolating paths between vectors, orthonormal completion."""

import numpy as np

from .. import contracts, gen, scenarios
from .util import crng, pick, scale

ID = "C15"
CONTRACTS = contracts.pick("get_orthogonal_vectors")
RULE = (
    "vector pairs of dimension 2..130: generic, real, sparse, basis, equal, opposite, phase-rotated, orthogonal, nearly "
    "equal, nearly opposite, with leading zeros, integer entries, unnormalised (1e-3..1e3), 1-D and column forms; paths "
    "sampled at end points, interior points and beyond in random order with repeated evaluation, after the caller has "
    "overwritten its vectors. Distinct = distinct vector pairs."
)
FLOORS = {"unitary path": 200, "linear path": 200, "get_orthogonal_vectors": 400, "smooth": 200}
REL = ("generic", "equal", "opposite", "phase", "orthogonal", "near", "nearopp", "real", "basis", "sparse", "int", "tail", "realopp", "permuted")


def cases(tier, seed):
    r = crng(tier, seed, 15)
    out = []
    for rel in REL:
        for k in range(scale(tier, 26, 350) * (3 if "near" in rel else 1)):
            out.append({"kind": "path", "rel": rel, "d": int(r.choice([2, 2, 3, 4, 4, 5, 8, 8, 16])), "k": k})
    for k in range(scale(tier, 150, 2000)):
        out.append({"kind": "orth", "d": int(r.integers(2, 20)), "k": k})
    for k in range(scale(tier, 10, 100)):
        out.append({"kind": "path", "rel": pick(r, REL), "d": int(r.integers(17, 130)), "k": k, "cost": 20})
        out.append({"kind": "orth", "d": int(r.integers(20, 130)), "k": k})
    return out + scenarios.specs(["random"], scale(tier, 3, 30))


def vectors(rng, rel, d):
    w = gen.wavefunction(rng, d, pick(rng, gen.WF_MODES))
    v = gen.wavefunction(rng, d, pick(rng, gen.WF_MODES))
    if rel == "equal":
        v = w.copy()
    elif rel == "opposite":
        v = -w
    elif rel == "phase":
        v = w * np.exp(1j * rng.uniform(0, 6.28))
    elif rel == "orthogonal":
        v = gen.wavefunction(rng, d)
        v = v - w * np.vdot(w, v)
        v /= np.linalg.norm(v)
    elif rel == "near":
        v = w + 10.0 ** rng.uniform(-6, -1.5) * gen.wavefunction(rng, d)
    elif rel == "nearopp":
        v = -w + 10.0 ** rng.uniform(-6, -1.5) * gen.wavefunction(rng, d)
    elif rel == "real":
        w, v = rng.standard_normal(d), rng.standard_normal(d)
    elif rel == "realopp":
        w = rng.standard_normal(d)
        v = -w
    elif rel == "basis":
        w, v = np.eye(d)[int(rng.integers(d))], np.eye(d)[int(rng.integers(d))]
    elif rel == "sparse":
        w, v = gen.wavefunction(rng, d, "sparse"), gen.wavefunction(rng, d, "basis")
    elif rel == "int":
        w, v = rng.integers(-3, 4, d), rng.integers(-3, 4, d)
        w[int(rng.integers(d))] += 7
        v[int(rng.integers(d))] += 7
    elif rel == "tail":  # weight only on the last components
        w, v = gen.wavefunction(rng, d), gen.wavefunction(rng, d)
        w[: d - 1] = 0
        v[: max(1, d // 2)] = 0
        w[-1], v[-1] = 1, 1j
    elif rel == "permuted":
        v = w[rng.permutation(d)]
    return w, v


def run(ctx, spec, rng):
    if spec["kind"] == "scenario":
        return scenarios.run(ctx, spec, rng)
    d = spec["d"]
    if spec["kind"] == "orth":
        v = vectors(rng, pick(rng, REL), d)[0]
        if rng.random() < 0.1:
            v = np.zeros(d)
        elif rng.random() < 0.3:  # some entries all but vanish
            v = v * np.where(rng.random(d) < 0.5, 10.0 ** rng.uniform(-14, -1, d), 1)
            v[-1] += rng.random() < 0.5
        v = v * pick(rng, [1, 1, 3, 100, 0.01])
        if rng.random() < 0.15:
            v = v.astype(np.complex64)
        if rng.random() < 0.5:
            v = v.reshape(-1, 1)
        Q = np.asarray(ctx.call("get_orthogonal_vectors", v))
        ctx.close(Q @ Q.conj().T, np.eye(d), "completion resolves the identity", 0, 1e-12)
        return
    w, v = vectors(rng, spec["rel"], d)
    if spec["k"] % 8 == 5 and w.dtype.kind != "i":  # held in single precision
        w, v = (x.astype(np.complex64 if x.dtype.kind == "c" else np.float32) for x in (w, v))
    w, v = w * pick(rng, [1, 1, 1, 2, 1000, 0.001] if w.dtype.kind != "i" else [1, 2]), v * pick(rng, [1, 1, 1, 3, 0.01] if v.dtype.kind != "i" else [1, 3])
    nw, nv = (x.astype(complex).reshape(-1, 1) for x in (w, v))
    nw, nv = nw / np.linalg.norm(nw), nv / np.linalg.norm(nv)
    a = w.reshape(-1, 1).copy() if rng.random() < 0.5 else w.copy()
    b = v.reshape(-1, 1).copy() if rng.random() < 0.5 else v.copy()
    for name, label in (("build_unitary_path", "unitary path"), ("build_linear_path", "linear path")):
        a1, b1 = a.copy(), b.copy()
        tol = 2e-6 if a.dtype.itemsize < 8 or a.dtype == np.complex64 else 1e-12  # the chord is computed in the precision of its ends
        if label == "unitary path":
            tol = 1e-12
        lists = rng.random() < 0.1
        p = ctx.call(name, a1.tolist() if lists else a1, b1.tolist() if lists else b1)
        ctx.expect(callable(p), f"{label} is callable")
        if rng.random() < 0.5:  # the caller reuses its buffers
            a1[...] = 0
            b1[...] = 1
        ts = [0.0, 1.0, 0, 1, 0.5] + [float(t) for t in rng.uniform(0, 1, 5)]
        e = 10.0 ** rng.uniform(-7, -1.5, 3)  # beside the end points and the middle
        ts += [float(e[0]), float(1 - e[1]), float(0.5 + e[2])]
        rng.shuffle(ts)
        anti = np.linalg.norm(nw + nv) < 1e-2 and label == "linear path"
        pts = {}
        for t in ts:
            if anti and 0.4 < t < 0.6:
                continue
            t = int(t) if t in (0, 1) and rng.random() < 0.5 else t
            x = np.array(ctx.quiet(p, t))
            ctx.expect(x.shape == (d, 1), f"{label} gives column vectors", shape=x.shape)
            ctx.close(np.linalg.norm(x), 1.0, f"{label}: norm", 0, tol, t=t, w=w, v=v)
            pts[t] = x
            ctx.close(ctx.quiet(p, t), x, f"{label}: repeated evaluation", 0, 1e-12)
        ctx.close(pts[0], nw, f"{label}: starts at the first vector", 0, tol, w=w, v=v)
        ctx.close(pts[1], nv, f"{label}: ends at the second vector", 0, tol, w=w, v=v)
        if label == "linear path":
            for t, x in pts.items():
                y = t * nv + (1 - t) * nw
                if np.linalg.norm(y) > 1e-3:
                    ctx.close(x, y / np.linalg.norm(y), "linear path: normalised chord", 0, tol if tol < 1e-9 else tol / min(1, np.linalg.norm(y)))
        else:
            # exp(-iHt) with |H| <= pi: Lipschitz, and a one-parameter group acting on the start
            t = float(rng.uniform(0, 0.9))
            for t0 in (t, 0.0, float(10.0 ** rng.uniform(-6, -1)), 1.0):
                h = float(10.0 ** rng.uniform(-8, -1)) * (-1 if t0 == 1.0 else 1)
                x, y = np.array(ctx.quiet(p, t0)), np.array(ctx.quiet(p, t0 + h))
                ctx.expect(np.linalg.norm(x - y) <= np.pi * abs(h) * (1 + 1e-6) + 1e-11, "smooth: path jumps", t=t0, h=h, w=w, v=v)
                # an analytic path: the chord spans the overlap of equally distant points
                ctx.close(np.vdot(x, y), np.vdot(np.array(ctx.quiet(p, 0)), np.array(ctx.quiet(p, h))), "smooth: overlaps depend on the parameter difference only", 0, 1e-12)
            s = float(rng.uniform(0, 0.5))
            u = [np.array(ctx.quiet(p, z)) for z in (0, s, t, t + s)]
            ctx.close(np.vdot(u[0], u[1]), np.vdot(u[2], u[3]), "smooth: overlaps depend on the parameter difference only", 0, 1e-12)
    ctx.nontrivial(w, v)
    ctx.sample({"relation": spec["rel"], "d": d})
