"""Seeded generators are functions of their seed."""

import json
import os
import random
import subprocess
import sys

import networkx as nx
import numpy as np

from .util import crng, pick, scale

ID = "C13"
CONTRACTS = {}
RULE = (
    "every seeded generator with every option combination: repeated calls from scrambled ambient generator states, seeds "
    "0, 1, large, numpy integers; interleaved with other generators; compared across seeds, across processes with other "
    "hash seeds, and unseeded calls compared with each other and replayed from a restored ambient state. Distinct = "
    "distinct (generator, options, size, seed)."
)
GENS = {
    "random_FF_rotation": [{}, {"returnH": True}, {"returnOrb": True}],
    "random_FF_state": [{}, {"fixedN": True}, {"pure": True}, {"returnH": True}, {"pure": True, "returnH": True}, {"fixedN": True, "returnH": True}],
    "random_H_generator": [{}, {"fixedN": True}],
    "ff_random_states.random_qubit_state": [{}],
    "random_qubit_pure_state": [{}],
    "random_FF_state_randH": [{}],
    "random_FF_state_rotPDF": [{}, {"returnS": True}],
    "random_FF_pure_state_W0": [{}],
    "random_FF_pure_state_WN": [{}, {"N": 1}],
    "random_FF_pure_state_CN": [{}],
    "generate_random_planar_graph": [{}],
}
FLOORS = {"same seed": 200, "other seed": 150, "fresh process": 20, "unseeded calls differ": 60, "ambient replay": 60}


def cases(tier, seed):
    r = crng(tier, seed, 13)
    out = []
    for f, opts in GENS.items():
        for o in range(len(opts)):
            for k in range(scale(tier, 14, 150)):
                s = int([0, 1, 2**32 - 3, 42][k]) if k < 4 else int(r.integers(0, 2**32 - 3))
                out.append({"kind": "seed", "f": f, "o": o, "n": int(r.integers(1, 5)) if "planar" not in f else int(r.integers(4, 8) if k % 2 else r.integers(8, 21)), "s": s, "np": bool(k == 5 and "planar" not in f), "k": k})
    for k in range(scale(tier, 40, 400)):  # sizes where most attempts of the planar generator fail
        out.append({"kind": "seed", "f": "generate_random_planar_graph", "o": 0, "n": int(r.integers(14, 29)), "s": int(r.integers(0, 2**32 - 3)), "np": False, "k": k})
    for k in range(scale(tier, 3, 16)):
        out.append({"kind": "fresh", "k": k, "cost": 500})
    return out


def flat(x):
    if x is None:
        return None
    if isinstance(x, tuple):
        return [flat(v) for v in x]
    if isinstance(x, nx.Graph):
        return ["graph", sorted(map(str, x.nodes)), sorted(str(sorted(e)) for e in x.edges)]
    x = np.asarray(x, dtype=complex)
    return [list(x.shape), [[float(v.real), float(v.imag)] for v in x.reshape(-1)]]


def same(a, b, tol=1e-10):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, (int, float)) and abs(a - b) <= tol * max(1.0, abs(a))
    return a == b


def other(rng, s):
    """Another seed: a neighbour, or one that differs in one binary or decimal digit."""
    k = int(rng.integers(4))
    if k == 0:
        t = s + int(rng.integers(1, 1000))
    elif k == 1:
        t = s ^ (1 << int(rng.integers(32)))
    elif k == 2:
        t = s + 10 ** int(rng.integers(1, 10))
    else:
        t = int(rng.integers(2**32 - 2))
    t %= 2**32 - 2
    return t if t != s else (s + 1) % (2**32 - 2)


def scramble(rng):
    np.random.seed(int(rng.integers(2**31)))
    random.seed(int(rng.integers(2**31)))
    for _ in range(int(rng.integers(0, 3))):
        np.random.standard_normal(int(rng.integers(1, 4)))  # odd counts leave a cached gaussian
        random.random()


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import warnings; warnings.simplefilter("ignore")
from ffmon.props.c13 import flat
import ff, importlib, io, contextlib
out = []
for f, n, s, kw in json.load(sys.stdin):
    g = ff
    for part in f.split(".")[:-1]:
        g = importlib.import_module("ff." + part)
    g = getattr(g, f.split(".")[-1])
    with contextlib.redirect_stdout(io.StringIO()):
        out.append(flat(g(n, seed=s, **kw)))
print(json.dumps(out))
"""


def run(ctx, spec, rng):
    if spec["kind"] == "fresh":
        import ff

        todo = []
        for f, opts in GENS.items():
            for kw in opts:
                todo.append((f, int(rng.integers(1, 4)) + (4 if "planar" in f else 0), int(pick(rng, [0, 7, int(rng.integers(2**31))])), kw))
        src = os.path.dirname(os.path.dirname(os.path.realpath(ff.__file__)))
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 2**31))))
        p = subprocess.run([sys.executable, "-c", CHILD, src, here], input=json.dumps(todo), capture_output=True, text=True, env=env)
        ctx.expect(p.returncode == 0, "fresh process: generator failed", err=p.stderr[-800:])
        theirs = json.loads(p.stdout.strip().splitlines()[-1])
        order = rng.permutation(len(todo))
        for i in order:
            f, n, s, kw = todo[i]
            mine = json.loads(json.dumps(flat(ctx.call(f, n, seed=s, **kw))))
            ctx.expect(same(mine, theirs[i]), f"fresh process: {f} differs for the same seed", n=n, seed=s, kw=kw)
        return
    f, kw, n, s = spec["f"], GENS[spec["f"]][spec["o"]], spec["n"], spec["s"]
    if "N" in kw and n < 1:
        n = 1
    seed = np.int64(s) if spec["np"] else s
    scramble(rng)
    a = flat(ctx.call(f, n, seed=seed, **kw))
    # history between the two calls: other generators, seeded and unseeded
    for _ in range(int(rng.integers(0, 4))):
        g = pick(rng, list(GENS))
        ctx.call(g, int(rng.integers(2, 4)), **({"seed": int(rng.integers(2**31))} if rng.random() < 0.5 else {}))
    if rng.random() < 0.7:
        scramble(rng)
    b = flat(ctx.call(f, n, seed=seed, **kw))
    ctx.expect(a is not None or ("planar" in f and n > 8), "same seed: produced")
    ctx.expect(same(a, b), f"same seed: {f} differs between calls", n=n, seed=s, kw=kw)
    c = flat(ctx.call(f, n, seed=s, **kw))
    ctx.expect(same(a, c), f"same seed: {f} differs on an immediate repetition", n=n, seed=s, kw=kw)
    if not ("planar" in f and n < 6) and not (n == 1 and ("W0" in f or "WN" in f or "CN" in f or kw.get("pure"))):
        s2 = other(rng, s)
        if "planar" in f:
            others = [flat(ctx.call(f, n, seed=other(rng, s), **kw)) for i in range(4)]
            ctx.expect(any(not same(a, o) for o in others), f"other seed: {f} ignores its seed", n=n, seed=s)
        else:
            for _ in range(4):
                d = flat(ctx.call(f, n, seed=s2, **kw))
                ctx.expect(not same(a, d), f"other seed: {f} gives the same result for two seeds", n=n, seeds=(s, s2), kw=kw)
                s2 = other(rng, s)
        # unseeded: draws move on, and come from the ambient generators
        xs = [flat(ctx.call(f, n, **kw)) for _ in range(4)]
        ctx.expect(any(not same(xs[0], x) for x in xs[1:]), f"unseeded calls differ: {f} repeats itself", n=n, kw=kw)
        st, st2 = np.random.get_state(), random.getstate()
        x = flat(ctx.call(f, n, **kw))
        np.random.set_state(st)
        random.setstate(st2)
        y = flat(ctx.call(f, n, **kw))
        ctx.expect(same(x, y), f"ambient replay: {f} is not determined by the ambient generator", n=n, kw=kw)
        # a seeded call must not freeze later unseeded ones to its own values
        ctx.call(f, n, seed=s, **kw)
    ctx.nontrivial(f, kw, n, s)
    ctx.sample(spec)
