"""Monitor core: client-boundary call events, in-process contract monitors and
the three-valued verdict of one case.

Every public function of the library is replaced, in every namespace that binds
it, by a recording wrapper.  The wrapper sees *all* calls, those of the workload
and the nested ones the library makes itself.  For each call it records a call
event before and a return event after, and - for the functions the property under
test owns - evaluates the contract (a postcondition with an explicit
precondition) on the arguments as they were before the call.  Contract failures
are recorded, never raised into the observed code.
"""

import collections
import hashlib
import importlib
import io
import json
import os
import signal
import sys
import threading
import traceback

import numpy as np

MODULES = [
    "ff_lib",
    "ff_combinatorics",
    "ff_graph_theory",
    "ff_distance_measures",
    "ff_random_states",
    "ff_utils",
]

# Reference parameter lists: contracts see arguments by these names, whatever the
# implementation calls its parameters internally.
SIG = {
    "permutation_to_matrix": "permutation",
    "pauli_matrices": "",
    "generate_pauli_group": "n verbose=False",
    "jordan_wigner_lowering": "n_sites",
    "jordan_wigner_alphas": "n_sites",
    "jordan_wigner_majoranas": "n_sites",
    "rotate_operators": "C alphas Left=False verbose=False",
    "build_V": "n_sites A Z=None",
    "build_H": "n_sites A B=None",
    "random_FF_rotation": "n_sites seed=None returnH=False returnOrb=False",
    "random_FF_state": "n_sites fixedN=False seed=None returnH=False pure=False",
    "random_H_generator": "n_sites fixedN=False seed=None",
    "kitaev_chain": "n_sites mu t delta",
    "build_Omega": "N",
    "build_reordering_xx_to_xp": "n_sites",
    "build_K": "n_sites",
    "is_symp": "U",
    "check_canonical_form": "L",
    "generate_gaussian_state": "n_sites H alphas=None",
    "build_op": "n_sites R alphas verbose=None direct=False",
    "compute_cov_matrix": "rho n_sites=None alphas=None",
    "correlation_matrix": "rho",
    "compute_2corr_matrix": "rho n_sites alphas=None conjugation=None",
    "compute_algebra_S": "alphas verbose=False",
    "is_matchgate": "M verbose=False",
    "eigh_sp": "H",
    "eigv_sp": "V",
    "eigm_sp_can": "G",
    "eigm_sp": "G",
    "sgn": "permutation",
    "pf": "A",
    "hf": "A",
    "pt": "A",
    "dt": "A",
    "dt_eigen": "A",
    "plot_graph_with_edge_weights": "A matching=None title=None",
    "generate_random_planar_graph": "n seed=None",
    "plot_planar_embedding": "G pfo=None title=None",
    "dual_graph_H": "G F T",
    "faces": "graph emb=None",
    "complete_face": "pfo edges verbose=False",
    "count_perfect_matchings": "graph",
    "count_perfect_matchings_planar": "graph",
    "find_perfect_matchings_brute": "graph",
    "pfo_algorithm": "graph verbose=False",
    "compute_tree_depth": "graph",
    "print_custom": "obj k=9",
    "clean": "obj threshold=1e-6",
    "formatted_output": "obj precision=6",
    "generate_random_bitstring": "n k",
    "kron_plus": "a b",
    "cast_to_pdf": "rho",
    "cast_to_density_matrix": "rho",
    "analyze_pdf": "rho name=None stem=True",
    "partial_trace_diagblocksum": "AB d",
    "partial_trace_blockTr": "AB d",
    "stabilizer_distribution": "rho",
    "SRE": "rho a=2",
    "renyi_entropy": "p a",
    "linear_entropy": "p",
    "cov_distribution": "rho",
    "total_variation_distance": "p q",
    "trace_distance": "A B",
    "relative_entropy": "p q",
    "bhattacharyya_coeff": "p q",
    "jensen_shannon_divergence": "p q",
    "FAF": "rho k=2",
    "random_qubit_state": "n seed=None",
    "random_qubit_pure_state": "n seed=None",
    "random_CHP_state": "n_qubits",
    "random_FF_state_randH": "n_sites seed=None",
    "random_FF_state_rotPDF": "n_sites returnS=False seed=None",
    "random_FF_pure_state_W0": "n_sites seed=None",
    "random_FF_pure_state_WN": "n_sites N=None seed=None",
    "random_FF_pure_state_CN": "n_sites seed=None",
    "get_orthogonal_vectors": "v",
    "build_unitary_path": "w v",
    "build_linear_path": "w v",
}
PKG_ALIAS = {
    "partial_trace_over_2": "partial_trace_blockTr",
    "partial_trace_over_1": "partial_trace_diagblocksum",
}
_PARSED = {}
for _name, _s in SIG.items():
    _names, _defaults = [], {}
    for _tok in _s.split():
        if "=" in _tok:
            _k, _v = _tok.split("=")
            _names.append(_k)
            _defaults[_k] = {"None": None, "False": False, "True": True}.get(_v, None)
            if _v not in ("None", "False", "True"):
                _defaults[_k] = float(_v) if "e" in _v or "." in _v else int(_v)
        else:
            _names.append(_tok)
    _PARSED[_name] = (_names, _defaults)


class Abort(BaseException):
    """A violation has been recorded; the rest of the case is pointless."""


class Overrun(BaseException):
    """The CPU budget of a case ran out."""


def bind(name, args, kw):
    names, defaults = _PARSED[name]
    if len(args) > len(names):
        return None
    out = dict(defaults)
    for k, v in zip(names, args):
        out[k] = v
    for k, v in kw.items():
        if k not in names:
            return None
        out[k] = v
    if any(k not in out for k in names):
        return None
    return Bound(out)


class Bound(dict):
    __getattr__ = dict.__getitem__


def freeze(x, depth=0):
    """Deep snapshot of an argument (arrays and containers copied)."""
    if isinstance(x, np.ndarray):
        return x.copy(order="K")
    if isinstance(x, list):
        return [freeze(v, depth + 1) for v in x]
    if isinstance(x, tuple):
        return tuple(freeze(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return {k: freeze(v, depth + 1) for k, v in x.items()}
    if hasattr(x, "nodes") and hasattr(x, "edges") and hasattr(x, "copy"):
        try:
            return x.copy()
        except Exception:
            return x
    return x


def _upd(h, x):
    if isinstance(x, np.ndarray):
        h.update(type(x).__name__.encode() + str(x.dtype).encode() + str(x.shape).encode())
        if x.dtype.kind == "O":
            h.update(repr(x.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + str(len(x)).encode())
        for v in x:
            _upd(h, v)
    elif isinstance(x, dict):
        h.update(b"dict")
        for k in x:
            _upd(h, k)
            _upd(h, x[k])
    elif hasattr(x, "nodes") and hasattr(x, "edges"):
        h.update(type(x).__name__.encode())
        h.update(repr(list(x.nodes(data=True))).encode())
        h.update(repr(list(x.edges(data=True))).encode())
    elif callable(x):
        h.update(b"fn")
    else:
        h.update(repr(x).encode())


def digest(*xs):
    h = hashlib.blake2b(digest_size=10)
    for x in xs:
        _upd(h, x)
    return h.hexdigest()


def brief(x, n=400):
    if isinstance(x, np.ndarray):
        s = f"ndarray{x.shape} {x.dtype} " + np.array2string(
            x, threshold=40, precision=6, max_line_width=200
        ).replace("\n", " ")
    elif hasattr(x, "nodes") and hasattr(x, "edges"):
        s = f"{type(x).__name__} nodes={list(x.nodes)} edges={list(x.edges(data=True))}"
    elif isinstance(x, dict):
        s = "{" + ", ".join(f"{k!r}: {brief(v, n)}" for k, v in x.items()) + "}"
    else:
        try:
            s = repr(x)
        except Exception:
            s = f"<{type(x).__name__}>"
    return s if len(s) <= n else s[:n] + "..."


class Storage:
    """Argument storage that client code reuses between calls.

    Every other call receives its array and list arguments in buffers an earlier
    call has used (same function, same argument, same shape): the values are the
    workload's, the object identities and addresses repeat.  An implementation
    that recognises an argument by anything but its value answers for the wrong
    one.  A buffer a result still refers to is not used again.
    """

    def __init__(self):
        self.pool, self.n = {}, 0

    @staticmethod
    def plain(x):
        return type(x) is np.ndarray and x.dtype.kind in "biufc" and x.size and x.flags.writeable and x.flags.aligned and (
            x.flags.c_contiguous or x.flags.f_contiguous
        )

    def one(self, key, x, used):
        if self.plain(x):
            k = (*key, x.shape, x.dtype.str, x.flags.c_contiguous)
            b = self.pool.pop(k, None)
            if b is None:
                b = np.empty_like(x, order="K")
            b[...] = x
            used.append((k, b))
            return b
        if type(x) is list and x and all(self.plain(v) for v in x):
            k = (*key, "list", len(x))
            b = self.pool.pop(k, None)
            if b is None:
                b = []
            b[:] = [self.one((*key, i), v, used) for i, v in enumerate(x)]
            used.append((k, b))
            return b
        return x

    def reuse(self, name, args, kw):
        self.n += 1
        if self.n % 2:
            return args, kw, []
        used = []
        a = tuple(self.one((name, i), x, used) for i, x in enumerate(args))
        return a, {k: self.one((name, k), x, used) for k, x in kw.items()}, used

    def retire(self, r, used):
        if not used:
            return
        arrays, lists, todo, opaque = [], [], [r], False
        while todo:
            x = todo.pop()
            if isinstance(x, np.ndarray):
                arrays.append(x)
                opaque |= x.dtype.kind == "O"
            elif isinstance(x, (list, tuple, set, frozenset)):
                lists.append(id(x))
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif x is not None and not isinstance(x, (str, bool, int, float, complex, np.generic)):
                opaque = True
        if opaque:
            return
        for k, b in used:
            if isinstance(b, list):
                if id(b) not in lists and not any(np.may_share_memory(v, a) for v in b for a in arrays):
                    self.pool[k] = b
            elif not any(np.may_share_memory(b, a) for a in arrays):
                self.pool[k] = b


class Ctx:
    """One worker's monitor state."""

    def __init__(self, prop, tier, seed, contracts):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.contracts = contracts
        self.lock = threading.RLock()
        self.calls = collections.Counter()  # function -> calls observed
        self.nested = collections.Counter()  # ... made by the library itself
        self.evals = collections.Counter()  # contract -> evaluations
        self.skipped = collections.Counter()  # contract -> precondition false
        self.checks = collections.Counter()  # workload-level oracle -> evaluations
        self.kinds = collections.Counter()  # case kind -> cases
        self.floor_hits = collections.Counter()
        self.distinct = set()  # digests of distinct judged (function, args)
        self.findings = []
        self.violations = []
        self.samples = []
        self.case = None
        self.case_events = 0
        self.events = 0
        self.tail = collections.deque(maxlen=40)
        self.local = threading.local()
        self.monitoring = True
        self.out = ""
        self._seen = {}
        self.storage, self.recycle = Storage(), True

    # -- verdicts ---------------------------------------------------------
    def violate(self, what, **w):
        with self.lock:
            self.violations.append(
                {
                    "what": what,
                    "witness": {k: brief(v, 1500) for k, v in w.items()},
                    "case": self.case,
                    "events": list(self.tail)[-12:],
                }
            )

    def fail(self, what, **w):
        self.violate(what, **w)
        raise Abort()

    def expect(self, ok, what, **w):
        with self.lock:
            self.checks[what.split(":")[0]] += 1
        if not ok:
            self.fail(what, **w)

    def close(self, got, want, what, rtol=1e-7, atol=1e-8, **w):
        with self.lock:
            self.checks[what.split(":")[0]] += 1
        ok, why = close(got, want, rtol, atol, what)
        if not ok:
            self.fail(f"{what} ({why})", got=got, want=want, **w)

    def nontrivial(self, *key):
        with self.lock:
            self.distinct.add(digest(self.prop, *key))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(brief(s, 600))

    # -- calls ------------------------------------------------------------
    def fn(self, name):
        import ff

        if "." in name:
            mod, name = name.split(".")
            return getattr(importlib.import_module("ff." + mod), name)
        return getattr(ff, name)

    def call(self, name, /, *args, **kw):
        """Call a library function that must succeed."""
        given = (args, kw)
        if self.recycle and threading.current_thread() is threading.main_thread():
            args, kw, used = self.storage.reuse(name, args, kw)
        else:
            used = []
        try:
            r = self.quiet(self.fn(name), *args, **kw)
            self.storage.retire(r, used)
            args, kw = given
        except (Abort, Overrun, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001 - any failure is the event
            tb = traceback.extract_tb(e.__traceback__)
            where = next(
                (f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/ff/" in f.filename),
                "?",
            )
            self.fail(
                f"{name} raised {type(e).__name__}: {str(e)[:200]} (in {where})",
                args=args,
                kwargs=kw,
            )
        return r

    def refuses(self, exc, name, /, *args, **kw):
        """Call that must be rejected with one of the given exceptions."""
        with self.lock:
            self.checks["rejection"] += 1
        try:
            r = self.quiet(self.fn(name), *args, **kw)
        except exc:
            return
        except (Abort, Overrun, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            self.fail(f"{name} rejected invalid input with {type(e).__name__}: {e}", args=args, kwargs=kw)
        self.fail(f"{name} accepted invalid input", args=args, kwargs=kw, result=r)

    def quiet(self, f, /, *args, **kw):
        if threading.current_thread() is not threading.main_thread():
            return f(*args, **kw)
        old, buf = sys.stdout, io.StringIO()
        sys.stdout = buf
        try:
            return f(*args, **kw)
        finally:
            sys.stdout = old
            self.out = buf.getvalue()

    # -- monitor ----------------------------------------------------------
    def wrap(self, name, f):
        import functools

        ctx = self

        @functools.wraps(f)
        def monitored(*args, **kw):
            if not ctx.monitoring:
                return f(*args, **kw)
            depth = getattr(ctx.local, "depth", 0)
            contract = ctx.contracts.get(name)
            with ctx.lock:
                ctx.events += 1
                seq = ctx.events
                ctx.calls[name] += 1
                if depth:
                    ctx.nested[name] += 1
            bound = None
            if contract is not None:
                bound = bind(name, args, kw)
                if bound is not None:
                    bound = Bound({k: freeze(v) for k, v in bound.items()})
            ctx.local.depth = depth + 1
            try:
                r = f(*args, **kw)
            except BaseException as e:
                ctx.local.depth = depth
                with ctx.lock:
                    ctx.events += 1
                    ctx.tail.append(f"#{seq} d{depth} {name} ! {type(e).__name__}")
                raise
            ctx.local.depth = depth
            with ctx.lock:
                ctx.events += 1
                ctx.tail.append(f"#{seq} d{depth} {name} -> {type(r).__name__}")
            if bound is not None:
                ctx.judge(name, contract, bound, r, depth)
            return r

        monitored.__ffmon__ = f
        return monitored

    def judge(self, name, contract, bound, r, depth):
        key = digest(name, list(bound.values()), r) if depth else None
        with self.lock:
            if key is not None and self._seen.get(key):
                return
            if key is not None:
                self._seen[key] = True
        self.local.judging = True
        mon, self.monitoring = self.monitoring, False
        try:
            verdict = contract(self, bound, r)
        except (Overrun, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # the result cannot even be interpreted
            tb = traceback.extract_tb(e.__traceback__)[-1]
            verdict = f"result could not be judged: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"
        finally:
            self.monitoring = mon
            self.local.judging = False
        with self.lock:
            if verdict is None:
                self.skipped[name] += 1
                return
            self.evals[name] += 1
            self.distinct.add(digest(name, list(bound.values())))
        if verdict is not True:
            self.violate(f"{name}: {verdict}", depth=depth, args=dict(bound), result=r)

    def install(self):
        import ff

        mods = [ff] + [importlib.import_module("ff." + m) for m in MODULES]
        wrapped = {}
        for mod in mods:
            for attr in list(vars(mod)):
                obj = getattr(mod, attr)
                name = PKG_ALIAS.get(attr, attr)
                if name in SIG and callable(obj) and not isinstance(obj, type):
                    base = getattr(obj, "__ffmon__", obj)
                    k = (name, id(base))
                    if k not in wrapped:
                        wrapped[k] = self.wrap(name, base)
                    setattr(mod, attr, wrapped[k])


MARGINS = {} if os.environ.get("FFMON_MARGINS") else None  # development: largest deviation / limit per label


def close(got, want, rtol=1e-7, atol=1e-8, label=""):
    """Elementwise closeness with equal shapes; scale-aware absolute term."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        return False, f"shape {g.shape} instead of {w.shape}"
    if g.size == 0:
        return True, ""
    try:
        g = g.astype(complex)
        w = w.astype(complex)
    except (TypeError, ValueError):
        return False, f"not numeric: {g.dtype}"
    same_inf = np.isinf(w) & (g == w)
    if not np.all(np.isfinite(g) | same_inf):
        return False, "non-finite entries"
    if not np.all(np.isfinite(w) | same_inf):
        return False, "finite where an infinity is due"
    d = np.where(same_inf, 0, np.abs(np.where(same_inf, 0, g) - np.where(same_inf, 0, w)))
    lim = atol + rtol * np.max(np.abs(np.where(same_inf, 0, w)))
    m = float(np.max(d))
    if MARGINS is not None:
        r = m / lim if lim else float(m > 0)
        n, old = MARGINS.get(label, (0, 0.0, 0))[:2]
        MARGINS[label] = (n + 1, max(old, r), max(lim, MARGINS.get(label, (0, 0, 0))[2]))
    if m > lim:
        return False, f"off by {m:.3g}, limit {lim:.3g}"
    return True, ""
