"""Display helpers: clean, formatted_output, print_custom."""

import re
import sys

import numpy as np

from .util import crng, pick, scale

ID = "C18"
CONTRACTS = {}
RULE = (
    "values spanning 14 decades around the threshold (just below, just above, exactly representable, negative, complex with "
    "large real and small imaginary part and vice versa) as scalars, lists, nested lists, arrays of rank 0..3, matrices, "
    "Fortran/strided/read-only arrays and numeric strings, for integer and float thresholds (also zero and negative digits), integers of any size, up to 3000 entries; printed text parsed back; "
    "NumPy print options compared before/after, also when writing fails. Distinct = argument digests."
)
FLOORS = {"zeroed": 300, "rounded": 300, "idempotent": 300, "formatted": 150, "printed": 100, "print options restored": 150}


def cases(tier, seed):
    r = crng(tier, seed, 18)
    out = []
    for k in range(scale(tier, 700, 9000)):
        out.append({"kind": "clean", "t": pick(r, ["int", "int", "float", "odd", "default"]), "c": pick(r, ["scalar", "list", "nested", "array", "array", "0d", "matrix", "string", "layout"]), "x": pick(r, ["real", "real", "complex", "smallimag", "smallreal", "int", "tinyimag"]), "k": k})
    for k in range(scale(tier, 40, 400)):  # more entries than any display would show
        out.append({"kind": "clean", "t": pick(r, ["int", "float", "odd", "default"]), "c": pick(r, ["big", "big", "list", "matrix", "layout"]), "x": pick(r, ["real", "real", "complex", "smallimag", "int"]), "big": True, "k": k})
        out.append({"kind": "print", "m": pick(r, ["vec", "mat", "list", "complex"]), "big": True, "k": k})
    for k in range(scale(tier, 120, 1500)):
        out.append({"kind": "ints", "c": pick(r, ["scalar", "list", "nested", "array", "0d"]), "k": k})
    for k in range(scale(tier, 300, 4000)):
        out.append({"kind": "fmt", "k": k})
    for k in range(scale(tier, 300, 4000)):
        out.append({"kind": "print", "m": pick(r, ["vec", "vec", "mat", "scalar", "list", "complex", "text", "ragged", "fault", "other"]), "k": k})
    return out


def values(rng, thr, how, shape):
    size = int(np.prod(shape)) if shape else 1
    if how == "int":
        w = max(9, int(8 * thr))
        return rng.integers(-w, w + 1, size).reshape(shape)

    def real():
        m = rng.integers(0, 8, size)
        x = np.where(m == 0, rng.uniform(-3, 3, size), 0.0)
        x = np.where(m == 1, thr * rng.uniform(0.05, 0.95, size), x)
        x = np.where(m == 2, -thr * rng.uniform(0.05, 0.95, size), x)
        x = np.where(m == 3, thr * rng.uniform(1.05, 9, size), x)
        x = np.where(m == 4, -thr * rng.uniform(1.05, 9, size), x)
        x = np.where(m == 5, rng.integers(-5, 6, size), x)
        x = np.where(m == 6, 10.0 ** rng.uniform(-12, 4, size) * rng.choice([-1, 1], size), x)
        x = np.where(m == 7, rng.choice([thr * 0.5001, thr * 0.7, 1 - thr / 3 if thr < 1 else 7 * thr / 3, 0.0], size), x)
        return x

    x = real()
    if how == "complex":
        x = x + 1j * real()
    elif how == "smallimag":  # all imaginary parts below the threshold
        x = x + 1j * thr * rng.uniform(-0.95, 0.95, size)
    elif how == "smallreal":
        x = thr * rng.uniform(-0.6, 0.6, size) + 1j * real()
    elif how == "tinyimag":
        x = x + 1j * 1e-17 * rng.standard_normal(size)
    return x.reshape(shape)


def judge(ctx, x, y, thr, nd, drop):
    """x raw values, y cleaned ones; drop: imaginary parts may be discarded."""
    x, y = np.asarray(x).astype(complex), np.asarray(y)
    ctx.expect(y.shape == x.shape, "zeroed: shape preserved", got=y.shape, want=x.shape)
    alls = np.all(np.abs(x.imag) < thr)
    if drop and alls:
        ctx.expect(not np.iscomplexobj(y), "zeroed: negligible imaginary parts are dropped", y=y)
        x = x.real + 0j
    y = y.astype(complex)
    u = 10.0 ** (-nd)
    ctx.expect(np.all(np.isfinite(y)), "rounded: finite", y=y)
    small = np.abs(x) < thr * (1 - 1e-9)
    ctx.expect(np.all(y[small] == 0), "zeroed: values below the threshold become exactly zero", x=x, y=y, thr=thr)
    edge = np.abs(x) < max(thr, u) * (1 + 1e-9) + u  # rounding may bring these onto or below the threshold
    d = y - x
    eps = 4e-16 * np.maximum(1, np.abs(x))
    okr = (np.abs(d.real) <= 0.5 * u + eps + 1e-9 * u) & (np.abs(d.imag) <= 0.5 * u + eps + 1e-9 * u)
    z = (y == 0) & edge
    # a value is either rounded to the nearest unit, or zeroed because it is, or rounds to, less than the threshold
    ctx.expect(np.all(okr | z), "rounded: a value above the threshold moved by more than half a digit", x=x, y=y, thr=thr)
    keep = (np.abs(x) > thr + u) & (y == 0)
    ctx.expect(not np.any(keep), "rounded: a value above the threshold was removed", x=x, y=y, thr=thr)
    q = np.concatenate([y.real.reshape(-1), y.imag.reshape(-1)]) / u
    tol = 1e-6 + 4e-16 * np.abs(q) * 4
    ctx.expect(np.all(np.abs(q - np.rint(q)) <= tol), "rounded: digits beyond the precision remain", y=y, digits=nd)
    nz = y[y != 0]
    ctx.expect(np.all(np.abs(nz) >= thr * (1 - 1e-9)), "zeroed: a value below the threshold remains", y=y, thr=thr)


def run(ctx, spec, rng):
    return {"clean": clean, "ints": ints, "fmt": fmt, "print": prt}[spec["kind"]](ctx, spec, rng)


def clean(ctx, spec, rng):
    t = spec["t"]
    if t == "int":
        arg = int(rng.integers(1, 11)) if rng.random() < 0.7 else int(rng.integers(-4, 1))
        thr, nd = 10.0**-arg, arg
    elif t == "float":
        nd = int(rng.integers(1, 11)) if rng.random() < 0.7 else int(rng.integers(-4, 1))
        arg = thr = float(f"1e{-nd}")
    elif t == "odd":
        arg = thr = float(10.0 ** -(rng.uniform(1, 9) if rng.random() < 0.7 else rng.uniform(-4, 1)))
        nd = int(-np.round(np.log10(thr)))
        if abs(np.log10(thr) * 2 - np.round(np.log10(thr) * 2)) < 1e-6:
            return
    else:
        arg, thr, nd = None, 1e-6, 6
    ctx.stats = getattr(ctx, "stats", {})
    kw = {} if arg is None else {"threshold": arg}
    c, how = spec["c"], spec["x"]
    shape = {"scalar": (), "0d": (), "list": (int(rng.integers(1, 7)),), "nested": (2, 3), "matrix": (int(rng.integers(1, 4)), 3), "string": ()}.get(
        c, tuple(int(s) for s in rng.integers(1, 5, int(rng.integers(1, 4))))
    )
    if spec.get("big"):
        shape = (int(rng.integers(300, 3000)),) if c == "list" else (int(rng.integers(18, 60)), int(rng.integers(18, 40)))
    x = values(rng, thr, how, shape)
    drop = True
    if c == "scalar":
        a = x.item()
        if isinstance(a, int) and rng.random() < 0.3:
            a = int(a)
    elif c == "0d":
        a = np.array(x)
    elif c in ("list", "nested"):
        a = x.tolist()
        drop = False
    elif c == "matrix":
        a = np.matrix(x)
    elif c == "string":
        v = abs(float(x.real))
        a = repr(v)
        if "e" in a:
            a = f"{v:.12f}"
        v = float(a)
        r = ctx.call("clean", a, **kw)
        ctx.expect(isinstance(r, str), "rounded: string in, string out", r=r)
        judge(ctx, v, float(r), thr, nd, True)
        w = pick(rng, ["abc", "1.2.3", "x1", "", "1e-9", "-0.5"])
        ctx.expect(ctx.call("clean", w, **kw) == w, "rounded: other strings unchanged", s=w)
        return
    elif c == "layout":
        big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
        sl = tuple(slice(None, None, 2) for _ in x.shape)
        big[sl] = x
        a = pick(rng, [np.asfortranarray(x), big[sl], x[..., ::-1]])
        x = a.copy()
        if rng.random() < 0.5:
            a = a.copy()
            a.setflags(write=False)
    else:
        a = x.copy()
    r = ctx.call("clean", a, **kw)
    if c in ("list", "nested"):
        ctx.expect(isinstance(r, list), "rounded: list in, list out", r=type(r))
    judge(ctx, x, r, thr, nd, drop)
    if not isinstance(a, (list, int, float, complex)):
        ctx.expect(np.array_equal(np.asarray(a), x), "rounded: argument left alone", a=a)
    again = ctx.call("clean", r if not isinstance(r, np.generic) else r.item(), **kw)
    if thr >= 0.3 * 10.0**-nd:
        g, w = np.asarray(again), np.asarray(r)
        ctx.expect(g.shape == w.shape and np.all(np.abs(g - w) <= 1e-15 * np.maximum(1, np.abs(w)) * 4), "idempotent", first=r, second=again)
    ctx.nontrivial(x, thr, c)
    ctx.sample({"threshold": arg, "container": c, "values": how})


def ints(ctx, spec, rng):
    """Integers have no digits to lose: cleaned to whole numbers or finer, they stay exactly what they are."""
    top = int(pick(rng, [10, 10**6, 2**31, 2**53, 2**62]))
    c = spec["c"]
    shape = {"scalar": (), "0d": (), "list": (int(rng.integers(1, 7)),), "nested": (2, 3), "array": tuple(int(s) for s in rng.integers(1, 5, 2))}[c]
    x = np.asarray(rng.integers(-top, top, shape, endpoint=True))
    if rng.random() < 0.5:
        x = np.where(rng.random(shape) < 0.3, 0, x)
    if c == "array" and top < 2**31 and rng.random() < 0.4:
        x = x.astype(np.int32)
    a = {"scalar": x.item, "list": x.tolist, "nested": x.tolist}.get(c, x.copy)()
    kw = pick(rng, [{}, {"threshold": int(rng.integers(0, 13))}, {"threshold": float(10.0 ** -rng.integers(0, 13))}])
    r = ctx.call("clean", a, **kw)
    if isinstance(a, list):
        ctx.expect(isinstance(r, list), "rounded: list in, list out", r=type(r))
    ok = np.shape(r) == x.shape and all(int(g) == int(w) and g == w for g, w in zip(np.asarray(r).reshape(-1).tolist(), x.reshape(-1).tolist()))
    ctx.expect(ok, "rounded: integers unchanged", x=x, r=r, threshold=kw)
    ctx.nontrivial(x, str(kw))


NUM = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?"


def fmt(ctx, spec, rng):
    p = int(rng.integers(0, 13))
    kw = {"precision": p}
    if rng.random() < 0.2:
        p, kw = 6, {}
    x = float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-8, 5) if rng.random() < 0.75 else rng.uniform(5, 20))
    k = int(rng.integers(6))
    if k == 0:
        v = int(rng.integers(-1000, 1000)) if rng.random() < 0.7 else int(rng.integers(-(2**62), 2**62))
    elif k in (1, 2):
        v = x if k == 1 else np.float64(x)
    elif k == 3:
        v = complex(x, float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-9.5, 3) if rng.random() < 0.75 else rng.uniform(3, 18)))
    elif k == 4:
        v = complex(x, float(rng.uniform(-9e-11, 9e-11)))
    else:
        v = pick(rng, ["text", None, [1, 2.5], {"a": 1}, (1, 2), np.arange(3), ""])
        s = ctx.call("formatted_output", v, **kw)
        ctx.expect(s == str(v), "formatted: other objects as str()", v=v, s=s)
        return
    s = ctx.call("formatted_output", v, **kw)
    ctx.expect(isinstance(s, str), "formatted: a string", s=s)
    z = complex(v)
    if isinstance(v, complex) and abs(v.imag) >= 1e-10:
        m = re.fullmatch(rf"\s*({NUM})\s*([+-]\s*{NUM})\s*j\s*", s)
        ctx.expect(m is not None, "formatted: complex values read back", v=v, s=s)
        parts = [m.group(1), m.group(2).replace(" ", "").replace("+-", "-")]
        want = [z.real, z.imag]
    else:
        ctx.expect(re.fullmatch(NUM, s.strip()) is not None, "formatted: real values read back", v=v, s=s)
        parts, want = [s.strip()], [z.real]
    for t, w in zip(parts, want):
        ctx.expect(abs(float(t) - w) <= 0.5000001 * 10.0**-p + 4e-16 * abs(w), "formatted: value to the requested precision", v=v, s=s, p=p)
        ctx.expect(len(t.split(".")[1] if "." in t else "") == p and "e" not in t.lower(), "formatted: number of decimals", v=v, s=s, p=p)
    ctx.nontrivial(v, p)


class Broken:
    """A stream that accepts a few writes and then fails."""

    def __init__(self, after):
        self.left = after

    def write(self, s):
        if self.left <= 0:
            raise OSError("stream closed")
        self.left -= 1
        return len(s)

    def flush(self):
        pass


def parse(s):
    s = s.replace("[", " ").replace("]", " ").replace("(", " ").replace(")", " ").replace("\n", " ")
    s = re.sub(r"\s+j", "j", s)
    if "j" in s:
        s = re.sub(rf"({NUM})\s+([+-](?=[\d.])[^\s]*j)", r"\1\2", s)
        return [complex(t) for t in s.split()]
    return [float(t) for t in s.split()]


def prt(ctx, spec, rng):
    m = spec["m"]
    user = {}
    if rng.random() < 0.6:
        user = {"precision": int(rng.integers(1, 12))}
        if rng.random() < 0.3:
            user.update(suppress=bool(rng.random() < 0.5), linewidth=int(rng.integers(60, 200)))
    if spec.get("big") and rng.random() < 0.6:
        user["threshold"] = 10**6
    saved = np.get_printoptions()
    try:
        np.set_printoptions(**user)
        before = np.get_printoptions()
        k = int(rng.integers(2, 11))
        args = (k,)
        if rng.random() < 0.2:
            k, args = 9, ()
        thr = 10.0**-k
        v = values(rng, thr, "real", (int(rng.integers(1, 6)),))
        v = np.where(np.abs(v) > 500, 1.5, v)
        if spec.get("big"):
            v = values(rng, thr, "real", (int(rng.integers(300, 2500)),))
            v = np.where(np.abs(v) > 500, 1.5, v)
        if m == "mat":
            v = values(rng, thr, "real", (int(rng.integers(150, 700)), 2) if spec.get("big") else (3, 2))
        elif m == "scalar":
            v = pick(rng, [v[0].item(), int(rng.integers(-9, 9)), complex(v[0], 0.25)])
        elif m == "list":
            v = v.tolist()
        elif m == "complex":
            v = v + 1j * np.round(rng.standard_normal(v.shape), 3) + 0.5j
            if rng.random() < 0.5:  # imaginary parts only here or there
                v = np.where(rng.random(v.shape) < pick(rng, [0.01, 0.3]), v, v.real)
                v[pick(rng, [0, -1, int(rng.integers(v.size))])] += 0.25j
        elif m == "text":
            v = pick(rng, [["a", "b"], [None, 1], ["1", "x"]])
        elif m == "ragged":
            v = [[1, 2], [3]]
        elif m == "other":
            v = pick(rng, ["text", {"a": 1}, None, (1, 2)])
        if m == "fault":
            f = ctx.fn("print_custom")
            old = sys.stdout
            sys.stdout = Broken(int(rng.integers(0, 3)))
            try:
                f(pick(rng, [v, v.tolist(), ["a"], [[1], [1, 2]], float(v[0])]), *args)
            except Exception:  # noqa: BLE001 - the injected fault, or what the library makes of it
                pass
            finally:
                sys.stdout = old
        else:
            r = ctx.call("print_custom", v, *args)
            text = ctx.out
            ctx.expect(r is None, "printed: returns nothing", r=r)
            if "..." in text and np.size(v) > before["threshold"]:
                ctx.checks["printed: summary of a long array"] += 1
            elif m in ("text", "ragged", "other"):
                ctx.expect(text.strip() != "", "printed: something is written", v=v)
                if m == "other":
                    ctx.expect(text == str(v) + "\n", "printed: other objects unchanged", v=v, text=text)
            else:
                try:
                    got = parse(text)
                except ValueError as e:
                    got = None
                    ctx.fail(f"printed text is not numeric: {e}", v=v, text=text)
                x = np.asarray(v).reshape(-1)
                ctx.expect(len(got) == x.size, "printed: one number per entry", v=v, text=text)
                if not user.get("suppress"):
                    for g, w in zip(got, x):
                        lim = 1.5 * thr * max(1.0, abs(w)) * 1.5 + 1e-12
                        ctx.expect(abs(g - w) <= lim, "printed: values to the requested precision", v=v, text=text, k=k)
                        if abs(w) < thr * 0.999:
                            ctx.expect(g == 0, "printed: small values shown as zero", v=v, text=text, k=k)
        after = np.get_printoptions()
        ctx.expect(after == before, "print options restored", before=before, after=after, obj=v)
    finally:
        np.set_printoptions(**{k2: x for k2, x in saved.items() if k2 != "legacy"})
    ctx.nontrivial(m, str(spec["k"]))
