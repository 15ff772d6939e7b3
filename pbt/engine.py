"""Generators, oracle comparison, shrinking and replay shared by all checks.

Two kinds of executable property:

* Spec  - one public function, a generator for its documented inputs, and an
          independent reference model.  Run (A) on Hypothesis-drawn scalars and
          (B) in bulk: Hypothesis draws a seed and a calling layout (1-D, 2-D,
          strided, read-only, NaN-sprinkled, int, Series, ...), the seed expands
          into many points, and a failing point is isolated and minimised.
* Rel   - a relation over one or several calls (round trip, limit, symmetry,
          agreement of two functions), as a check over generated inputs.
"""
import json
import math
import random
import signal
import zlib

import numpy as np

from . import boot

MISSING = "<<default>>"      # a parameter left out of the call


class Violation(Exception):
    def __init__(self, msg, payload=None):
        super().__init__(msg)
        self.msg = msg
        self.payload = payload


class Hang(KeyboardInterrupt):
    """The code under test gave no answer; not an Exception, so Hypothesis does not retry it."""


LIMIT_S = 90
CURRENT = {"stats": None}


def _alarm(*_):
    raise Hang("no answer within %d s" % LIMIT_S)


def arm(on=True):
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, LIMIT_S if on else 0)
    except ValueError:
        pass


def note_known(fid):
    st = CURRENT["stats"]
    if st is not None:
        st["known"][fid] = st["known"].get(fid, 0) + 1


class Skip(Exception):
    """Reference itself not defined here: the case decides nothing."""


# --------------------------------------------------------------------------- domains
class R:
    """Real parameter in [lo, hi]; `special` values and copies of other
    parameters (`eq`) are mixed in with probability ps."""

    def __init__(self, lo, hi, special=(), log=False, eq=(), ps=0.12, xlo=False, xhi=False):
        self.lo, self.hi, self.log, self.eq, self.ps = float(lo), float(hi), log, tuple(eq), ps
        sp = [float(s) for s in special]
        if not xlo:
            sp.append(self.lo)
        if not xhi:
            sp.append(self.hi)
        self.special = [s for s in dict.fromkeys(sp)]
        self.cat = False

    def ok(self, v):
        return (self.lo <= v <= self.hi) or v in self.special

    def strategy(self, drawn):
        from hypothesis import strategies as st
        opts = []
        if self.log:
            a, b = math.log10(self.lo), math.log10(self.hi)
            opts.append(st.floats(a, b, allow_nan=False).map(
                lambda x: float(min(max(10.0 ** x, self.lo), self.hi))))
        opts.append(st.floats(self.lo, self.hi, allow_nan=False, allow_subnormal=False))
        if self.special:
            opts.append(st.sampled_from(self.special))
        e = [drawn[k] for k in self.eq if k in drawn and self.ok(drawn[k])]
        if e:
            opts.append(st.sampled_from(e))
        # round to 12 significant digits: no physics lives below that, and it
        # keeps differences of parameters away from the underflow range
        return st.one_of(opts).map(_round12)

    def rand(self, rng, n, drawn):
        if self.log:
            v = 10.0 ** rng.uniform(math.log10(self.lo), math.log10(self.hi), n)
            v = np.clip(v, self.lo, self.hi)
        else:
            v = rng.uniform(self.lo, self.hi, n)
        if self.special:
            m = rng.random(n) < self.ps
            v[m] = rng.choice(self.special, m.sum())
        for k in self.eq:
            if k in drawn:
                m = (rng.random(n) < 0.06) & (drawn[k] >= self.lo) & (drawn[k] <= self.hi)
                v[m] = drawn[k][m]
        return v


def _round12(x):
    x = float(x)
    if abs(x) < 1e-40:       # powers of smaller numbers lose digits to underflow
        return 0.0
    return float("%.12g" % x)


class Cat:
    """Choice held fixed over one call."""

    def __init__(self, *values):
        self.values = list(values)
        self.cat = True

    def strategy(self, drawn):
        from hypothesis import strategies as st
        return st.sampled_from(self.values)

    def rand1(self, rng):
        return self.values[int(rng.integers(len(self.values)))]

    def ok(self, v):
        return v in self.values


class I(Cat):
    """Integer parameter, one per call."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.cat = True

    def strategy(self, drawn):
        from hypothesis import strategies as st
        return st.integers(self.lo, self.hi)

    def rand1(self, rng):
        return int(rng.integers(self.lo, self.hi + 1))

    def ok(self, v):
        return isinstance(v, int) and self.lo <= v <= self.hi


class Vec(Cat):
    """List of n reals (n fixed or (lo, hi)), one per call.

    inc=True: strictly increasing (cumulative sums of the drawn steps)."""

    def __init__(self, dom, n, dup=0.0):
        self.dom, self.n, self.dup = dom, n, dup
        self.cat = True

    def strategy(self, drawn):
        from hypothesis import strategies as st
        lo, hi = self.n if isinstance(self.n, tuple) else (self.n, self.n)
        return st.lists(self.dom.strategy({}), min_size=lo, max_size=hi)

    def rand1(self, rng):
        n = int(rng.integers(self.n[0], self.n[1] + 1)) if isinstance(self.n, tuple) else self.n
        return [float(x) for x in self.dom.rand(rng, n, {})]

    def ok(self, v):
        return all(self.dom.ok(x) for x in v)


def draw_base(data, base):
    out = {}
    for k, d in base.items():
        out[k] = data.draw(d.strategy(out), label=k)
    return out


def rand_base(rng, base, n):
    """Column arrays for reals, single values for categorical parameters."""
    out = {}
    for k, d in base.items():
        out[k] = d.rand1(rng) if d.cat else d.rand(rng, n, out)
    return out


def row(base, cols, i):
    return {k: (v if base[k].cat else _round12(v[i])) for k, v in cols.items()}


# --------------------------------------------------------------------------- comparison
def flat(res):
    """Outputs of a call as a list of arrays (floats or complex)."""
    if isinstance(res, (tuple, list)):
        out = []
        for r in res:
            out += flat(r)
        return out
    a = np.asarray(res)
    if a.dtype == object:
        try:
            a = a.astype(float)
        except (TypeError, ValueError):
            a = a.astype(complex)
    if a.dtype.kind in "biu":
        a = a.astype(float)
    return [a]


def fmt(x, k=6):
    try:
        a = np.asarray(x)
        if a.size > k:
            return "array%s[%s ...]" % (a.shape, ", ".join(repr(complex(v) if a.dtype.kind == "c" else float(v)) for v in a.ravel()[:k]))
        return repr(a.tolist())
    except Exception:
        return repr(x)[:200]


def jsonable(x):
    if isinstance(x, dict):
        return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return {"re": x.real, "im": x.imag}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def close(got, want, tol):
    """Elementwise agreement; NaN agrees with NaN, inf with inf."""
    with np.errstate(all="ignore"):
        if got.dtype.kind == "c" or want.dtype.kind == "c":
            gn, wn = np.isnan(got), np.isnan(want)
            ok = np.abs(got - want) <= tol
            return ok | (gn & wn) | (got == want)
        gn, wn = np.isnan(got), np.isnan(want)
        ok = np.abs(got - want) <= tol
        return ok | (gn & wn) | (got == want)


def to_shape(a, shape):
    a = np.asarray(a)
    if a.size == 1:
        a = a.reshape(())
    return np.broadcast_to(a, shape)


def agree(a, b, rtol=1e-8, atol=0.0, scale=None):
    """Structure-insensitive comparison used by relations."""
    A, B = flat(a), flat(b)
    if len(A) != len(B):
        return False, "number of outputs %d vs %d" % (len(A), len(B))
    for i, (x, y) in enumerate(zip(A, B)):
        x, y = np.squeeze(x), np.squeeze(y)
        if x.shape != y.shape:
            if x.size == 1 or y.size == 1:
                pass
            else:
                return False, "output %d: shape %s vs %s" % (i, x.shape, y.shape)
        s = np.maximum(np.abs(x), np.abs(y))
        if scale is not None:
            s = np.maximum(s, scale)
        ok = close(np.asarray(x), np.asarray(y), rtol * s + atol)
        if not np.all(ok):
            return False, "output %d: %s vs %s" % (i, fmt(x), fmt(y))
    return True, ""


def require(cond, msg, **payload):
    if not cond:
        raise Violation(msg, jsonable(payload))


def require_agree(a, b, what, rtol=1e-8, atol=0.0, scale=None):
    ok, why = agree(a, b, rtol, atol, scale)
    if not ok:
        raise Violation("%s: %s" % (what, why))


def call(path, *args, **kw):
    """Call the code under test; an exception on a documented input is a violation."""
    f = boot.target(path)
    try:
        with np.errstate(all="ignore"):
            return f(*args, **kw)
    except (Violation, Skip):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation("%s(%s) raised %s: %s" % (
            path, ", ".join(fmt(a) for a in args), type(e).__name__, str(e)[:200]))


# --------------------------------------------------------------------------- specs
SPECS = {}
RELS = {}

LAYOUTS_VEC = ("one_d", "one_d", "subset", "subset", "two_d", "strided", "reversed", "readonly",
               "nan", "size1", "zero_d", "series", "int_arr", "broadcast", "npscalar", "pyint", "scalar",
               "sorted", "const", "f32", "list")


class Spec:
    def __init__(self, prop, path, base, ref, build=None, vec=(), alt=None, rtol=1e-8, csens=1e-3,
                 outs=None, ints=(), no=(), shape_free=False, n_a=150, n_b=30, n_pts=300, n_sc=12,
                 floor=0.0, weight=1.0, vref=True, name=None, valid=None, tolf=None, nonscalar=False, lists=()):
        self.prop, self.path, self.base, self.ref, self.build = prop, path, base, ref, build
        self.name = name or path
        self.vec = tuple(vec)
        self.alt = alt                    # (finding id, reference model of the recorded defect)
        self.rtol, self.csens = rtol, csens
        self.ints = tuple(ints)           # arguments for which integers are natural
        self.no = set(no)                 # layouts the function does not document/support
        self.n_a, self.n_b, self.n_pts, self.n_sc = n_a, n_b, n_pts, n_sc
        self.floor = floor                # absolute tolerance floor
        self.vref = vref                  # reference accepts arrays
        self.weight = weight
        self.valid = valid                # optional vectorised predicate on args
        self.tolf = tolf                  # extra tolerance: f(args) -> list of arrays/float
        self.nonscalar = nonscalar        # scalar call not supported
        self.lists = tuple(lists)         # arguments that may be Python lists
        self.undecided = None             # rows with a missing (NaN) input: they only must not touch the other rows
        assert self.name not in SPECS, self.name
        SPECS[self.name] = self

    # -- arguments
    def args_of(self, b):
        a = dict(b) if self.build is None else self.build(dict(b))
        return a

    def invoke(self, args):
        pos, missing = [], False
        for k, v in args.items():
            if isinstance(v, str) and v == MISSING:
                missing = True
                continue
            if missing:
                raise RuntimeError("defaulted parameter before a given one")
            pos.append(v)
        f = boot.target(self.path)
        try:
            with np.errstate(all="ignore"):
                return f(*pos)
        except Exception as e:  # noqa: BLE001
            raise Violation("%s raised %s: %s" % (self.path, type(e).__name__, str(e)[:300]))

    def to_int(self, k, v):
        d = self.base.get(k)
        if d is None or d.cat:
            return int(round(v))
        return int(min(max(round(v), math.ceil(d.lo)), math.floor(d.hi)))

    def ref_eval(self, args, ref=None):
        ref = ref or self.ref
        a = {}
        for k, v in args.items():
            if isinstance(v, str) and v == MISSING:
                continue
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.real_names(args):
                v = float(v)
            a[k] = v
        with np.errstate(all="ignore"):
            return flat(ref(**a))

    def real_names(self, args):
        if self.build is None:
            return [k for k in args if k in self.base and not self.base[k].cat]
        return [k for k, v in args.items() if isinstance(v, (float, np.floating)) or
                (isinstance(v, np.ndarray) and v.dtype.kind == "f")]

    def expected(self, args, ref=None):
        """Reference outputs and the tolerance of each: relative rtol plus a share
        of the reference's own sensitivity to 1e-6 relative input changes."""
        want = self.ref_eval(args, ref)
        names = [k for k in self.real_names(args)]
        tols = [self.rtol * np.abs(np.nan_to_num(w, nan=0.0, posinf=0.0, neginf=0.0)) + self.floor for w in want]
        for pat in (0, 1):
            pert = dict(args)
            for j, k in enumerate(names):
                sgn = 1.0 if (pat == 0 or j % 2 == 0) else -1.0
                pert[k] = np.multiply(args[k], 1.0 + sgn * 1e-6)
                if not isinstance(args[k], np.ndarray):
                    pert[k] = float(pert[k])
            try:
                w2 = self.ref_eval(pert, ref)
            except (Skip, ArithmeticError, ValueError):
                continue
            for i in range(len(want)):
                d = np.abs(np.asarray(w2[i]) - np.asarray(want[i]))
                tols[i] = tols[i] + self.csens * np.nan_to_num(d, nan=0.0, posinf=0.0, neginf=0.0)
        if self.tolf is not None:
            ex = self.tolf(**{k: v for k, v in args.items() if not (isinstance(v, str) and v == MISSING)})
            for i in range(len(want)):
                tols[i] = tols[i] + (ex[i] if isinstance(ex, (list, tuple)) else ex)
        return want, tols

    # -- one comparison, arrays or scalars
    def compare(self, got, args, ref=None, shape=None):
        """None if all agree, else (output index, flat element index, message)."""
        want, tols = self.expected(args, ref)
        try:
            G = flat(got)
        except (TypeError, ValueError):
            return (0, 0, "returned something that is not numbers: %s" % repr(got)[:200])
        if len(G) != len(want):
            return (0, 0, "returned %d outputs, expected %d" % (len(G), len(want)))
        for i, (g, w, t) in enumerate(zip(G, want, tols)):
            w = np.asarray(w)
            if shape is not None:
                w = to_shape(w, shape) if w.shape != shape else w
            t = to_shape(t, w.shape)
            if g.shape != w.shape:
                if g.size == w.size and g.squeeze().shape == w.squeeze().shape:
                    g = g.reshape(w.shape)
                elif g.size == 1 and w.size > 1 and self._depends_not(w):
                    g = np.broadcast_to(g.reshape(()), w.shape)
                else:
                    try:
                        gb = np.broadcast_to(g, w.shape)
                    except ValueError:
                        return (i, 0, "output %d has shape %s, expected %s" % (i, g.shape, w.shape))
                    g = gb
            ok = close(g, w, t)
            if self.undecided is not None and self.undecided.shape == ok.shape:
                ok = ok | self.undecided
            if not ok.all():
                j = int(np.flatnonzero(~ok.ravel())[0])
                return (i, j, "output %d is %r, reference %r (tolerance %.3g)" % (
                    i, g.ravel()[j].item(), w.ravel()[j].item(), float(t.ravel()[j])))
        return None

    @staticmethod
    def _depends_not(w):
        return bool(np.all(w == w.ravel()[0])) or bool(np.all(np.isnan(w)))

    def judge(self, args, stats, shape=None, mask=None):
        """Invoke and compare; returns None, or failure (flat index, message)."""
        got = self.invoke(args)
        return self.judge_result(got, args, stats, shape)

    def judge_result(self, got, args, stats, shape=None):
        bad = self.compare(got, args, None, shape)
        if bad is None:
            return None
        if self.alt is not None:
            fid, aref = self.alt
            # elementwise: every element must agree with the model or with the
            # recorded defect
            b2 = self._compare_either(got, args, aref, shape)
            if b2 is None:
                stats["known"][fid] = stats["known"].get(fid, 0) + 1
                return None
            return b2[1], b2[2]
        return bad[1], bad[2]

    def _compare_either(self, got, args, aref, shape):
        b2 = self.compare(got, args, aref, shape)
        if b2 is None:
            return None
        G = flat(got)
        w1, t1 = self.expected(args)
        w2, t2 = self.expected(args, aref)
        ok_all = None
        for g, a, ta, b, tb in zip(G, w1, t1, w2, t2):
            a, b = np.asarray(a), np.asarray(b)
            sh = a.shape if shape is None else shape
            try:
                g = np.broadcast_to(g if g.squeeze().shape != a.squeeze().shape else g.reshape(a.shape), sh)
            except ValueError:
                return b2
            o1 = close(g, to_shape(a, sh), to_shape(ta, sh))
            o2 = close(g, to_shape(b, sh), to_shape(tb, sh))
            ok_all = (o1, o2) if ok_all is None else (ok_all[0] & o1, ok_all[1] & o2)
        ok = ok_all[0] | ok_all[1]
        if self.undecided is not None and self.undecided.shape == ok.shape:
            ok = ok | self.undecided
        if ok.all():
            return None
        return b2


def new_stats():
    return {"evaluations": 0, "nontrivial": 0, "skipped": 0, "known": {}, "samples": [], "layouts": {}, "hashes": set()}


def _seed_of(name, seed):
    return (zlib.crc32(name.encode()) ^ (seed * 2654435761)) & 0x7FFFFFFF


def scalar_args(spec, b):
    return spec.args_of(b)


def run_scalar_case(spec, b, stats=None, ints=False):
    """One scalar call judged against the reference; raises Violation."""
    stats = stats if stats is not None else new_stats()
    args = spec.args_of(b)
    if ints:
        args = {k: (spec.to_int(k, v) if k in spec.ints and isinstance(v, float) else v) for k, v in args.items()}
        if spec.valid is not None and not np.all(spec.valid(**{k: v for k, v in args.items() if v is not MISSING})):
            raise Skip()
    elif spec.valid is not None and not np.all(spec.valid(**{k: v for k, v in args.items() if v is not MISSING})):
        raise Skip()
    try:
        bad = spec.judge(args, stats)
    except Violation as v:
        v.payload = {"kind": "spec", "spec": spec.name, "base": jsonable(b), "ints": ints, "args": jsonable(args)}
        raise
    if bad is not None:
        raise Violation("%s: %s" % (spec.path, bad[1]),
                        {"kind": "spec", "spec": spec.name, "base": jsonable(b), "ints": ints,
                         "args": jsonable(args)})
    return args


def minimise(spec, b, ints):
    """Greedy simplification of a failing scalar case inside the domain."""
    def fails(bb):
        try:
            run_scalar_case(spec, bb, None, ints)
        except Violation as v:
            return v
        except Exception:  # noqa: BLE001
            return None
        return None
    best, v0 = dict(b), fails(b)
    if v0 is None:
        return None
    for digits in (1, 2, 3, 5, 8):
        for k, d in spec.base.items():
            if d.cat:
                continue
            x = float("%.*g" % (digits, best[k]))
            if x != best[k] and d.ok(x):
                t = dict(best)
                t[k] = x
                v = fails(t)
                if v is not None:
                    best, v0 = t, v
    return v0


def _layout(spec, layout, args, cols_n, rng):
    """Arrange the vectorisable arguments; returns (args, index map to element,
    shape) or None when the layout does not apply."""
    vec = [k for k in spec.vec if isinstance(args.get(k), np.ndarray)]
    if not vec:
        return None
    n = cols_n
    a = dict(args)
    shape = (n,)

    def fix(keys, i=0):
        for k in keys:
            a[k] = float(args[k][i])
    nonvec = [k for k in args if isinstance(args[k], np.ndarray) and args[k].shape == (n,) and k not in vec]
    fix(nonvec)
    if layout in ("one_d", "readonly", "strided", "reversed", "series", "int_arr", "nan", "two_d", "sorted", "const", "f32", "list"):
        pass
    elif layout == "subset":
        m = max(1, int(rng.integers(1, len(vec) + 1)))
        keep = list(rng.choice(vec, size=m, replace=False))
        fix([k for k in vec if k not in keep])
        vec = keep
    elif layout == "size1":
        for k in vec:
            a[k] = args[k][:1].copy()
        return a, vec, (1,)
    elif layout == "zero_d":
        for k in vec:
            a[k] = np.array(args[k][0])
        return a, vec, ()
    elif layout == "npscalar":
        for k in vec:
            a[k] = np.float64(args[k][0])
        return a, vec, ()
    elif layout == "broadcast":
        if len(vec) < 2:
            return None
        side = int(min(12, n))
        half = [k for k in vec if rng.random() < 0.5]
        if not half or len(half) == len(vec):
            half = vec[:1]
        for k in vec:
            a[k] = args[k][:side][:, None].copy() if k in half else args[k][:side].copy()
        return a, vec, (side, side)
    if layout == "two_d":
        m = (n // 7) * 7
        if m == 0:
            return None
        for k in vec:
            a[k] = args[k][:m].reshape(7, -1).copy(order="F" if rng.random() < .5 else "C")
        return a, vec, (7, m // 7)
    if layout == "strided":
        for k in vec:
            z = np.zeros(2 * n)
            z[::2] = args[k]
            a[k] = z[::2]
    elif layout == "reversed":
        for k in vec:
            a[k] = args[k][::-1].copy()[::-1]
    elif layout == "readonly":
        for k in vec:
            a[k] = args[k].copy()
            a[k].setflags(write=False)
    elif layout == "sorted":
        k0 = vec[int(rng.integers(len(vec)))]
        order = np.argsort(args[k0])
        if rng.random() < .3:
            order = order[::-1]
        for k in vec:
            a[k] = args[k][order].copy()
    elif layout == "const":
        for k in vec:
            a[k] = np.full(n, float(args[k][0]))
    elif layout == "series":
        import pandas as pd
        idx = np.arange(n) + 5
        for k in vec:
            a[k] = pd.Series(args[k].copy(), index=idx)
    elif layout == "nan":
        k = vec[int(rng.integers(len(vec)))]
        z = args[k].copy()
        z[rng.random(n) < 0.1] = np.nan
        a[k] = z
    elif layout == "int_arr":
        ks = [k for k in vec if k in spec.ints]
        if not ks:
            return None
        for k in ks:
            a[k] = np.array([spec.to_int(k, x) for x in args[k]], np.int64)
    elif layout == "list":
        ks = [k for k in vec if k in spec.lists]
        if not ks:
            return None
        for k in vec:
            a[k] = (args[k].tolist() if rng.random() < .7 else tuple(args[k].tolist())) if k in ks else args[k].copy()
    elif layout == "f32":
        return None
    else:
        for k in vec:
            a[k] = args[k].copy()
    return a, vec, shape


def plain(v):
    """float64 ndarray / float view of an argument for the reference."""
    if hasattr(v, "to_numpy"):
        v = v.to_numpy()
    if isinstance(v, np.ndarray) and v.dtype.kind in "iu":
        v = v.astype(float)
    return v


def plain_args(spec, a):
    return {k: np.array(v, float) if k in spec.lists and isinstance(v, (list, tuple)) else plain(v) for k, v in a.items()}


def run_bulk_case(spec, seed, layout, n, stats):
    rng = np.random.default_rng(seed)
    cols = rand_base(rng, spec.base, n)
    for k, d in spec.base.items():
        if not d.cat:
            cols[k] = np.array([_round12(x) for x in cols[k]])
    stats["layouts"][layout] = stats["layouts"].get(layout, 0) + 1

    def scalars(idx, ints=False):
        for i in idx:
            b = row(spec.base, cols, int(i))
            try:
                args = run_scalar_case(spec, b, stats, ints)
            except Skip:
                stats["skipped"] += 1
                continue
            except Violation as v:
                raise (minimise(spec, b, ints) or v)
            stats["evaluations"] += 1
            _nontrivial(stats, args)

    if layout in ("scalar", "pyint") or not spec.vec:
        if spec.nonscalar:
            return
        if layout == "pyint" and not spec.ints:
            layout = "scalar"
        scalars(range(min(n, spec.n_sc)), layout == "pyint")
        return

    args = spec.args_of(cols)
    lay = _layout(spec, layout, args, n, rng)
    if lay is None:
        lay = _layout(spec, "one_d", args, n, rng)
        layout = "one_d"
    if lay is None:
        return
    a, vec, shape = lay
    ref_args = plain_args(spec, a)
    if spec.valid is not None:
        try:
            m = np.broadcast_to(spec.valid(**{k: v for k, v in ref_args.items() if not (isinstance(v, str) and v == MISSING)}), shape)
        except TypeError:
            m = np.ones(shape, bool)
    else:
        m = np.ones(shape, bool)
    if not m.all():
        # keep only valid points (1-D layouts); other layouts are re-tried as 1-D
        if len(shape) == 1 and layout != "series":
            keep = np.flatnonzero(m)
            if keep.size == 0:
                stats["skipped"] += n
                return
            for k in vec:
                if np.shape(a[k]) == shape:
                    a[k] = a[k][keep] if isinstance(a[k], np.ndarray) else type(a[k])(a[k][i] for i in keep)
            ref_args = plain_args(spec, a)
            shape = (keep.size,)
        else:
            stats["skipped"] += int(np.prod(shape))
            return
    payload = lambda: {"kind": "bulk", "spec": spec.name, "seed": int(seed), "layout": layout, "n": int(n)}
    try:
        got = spec.invoke(a)
        got = tuple(plain(g) for g in got) if isinstance(got, tuple) else plain(got)
        ref_call = ref_args if spec.vref else None
        if layout == "nan":
            spec.undecided = np.isnan(np.sum([np.broadcast_to(ref_args[k], shape) for k in vec], 0))
        try:
            bad = spec.judge_result(got, ref_call, stats, shape)
        finally:
            spec.undecided = None
    except Violation as v:
        v = _isolate(spec, a, v, payload)
        raise v
    stats["evaluations"] += int(np.prod(shape)) if shape else 1
    if bad is not None:
        j, msg = bad
        # isolate: the failing element as a scalar call
        el = {}
        for k, v in ref_args.items():
            el[k] = float(np.broadcast_to(v, shape).ravel()[j]) if isinstance(v, np.ndarray) else v
        if not spec.nonscalar:
            try:
                st = new_stats()
                bad1 = spec.judge(el, st)
                if bad1 is not None:
                    raise Violation("%s: %s" % (spec.path, bad1[1]),
                                    {"kind": "args", "spec": spec.name, "args": jsonable(el)})
            except Violation as v:
                if v.payload is None:
                    v.payload = {"kind": "args", "spec": spec.name, "args": jsonable(el)}
                raise
        p = payload()
        p["element"] = {"index": int(j), "args": jsonable(el)}
        raise Violation("%s with %s arguments, element %d: %s" % (spec.path, layout, j, msg), p)
    if shape:
        _nontrivial_arr(stats, ref_args, shape)
    else:
        _nontrivial(stats, ref_args)


def _isolate(spec, a, v, payload):
    v.payload = payload()
    v.msg = v.msg + " [layout %s]" % v.payload["layout"]
    return v


def _nontrivial(stats, args):
    key = tuple(round(float(v), 10) if isinstance(v, (int, float, np.floating)) and not isinstance(v, bool) else str(v)
                for v in args.values() if not isinstance(v, str))
    h = hash(key)
    if h not in stats["hashes"]:
        stats["hashes"].add(h)
        stats["nontrivial"] += 1
        if len(stats["samples"]) < 2:
            stats["samples"].append(jsonable(args))


def _nontrivial_arr(stats, args, shape):
    cols = [np.broadcast_to(v, shape).ravel() for v in args.values() if isinstance(v, np.ndarray)]
    if not cols:
        return
    with np.errstate(all="ignore"):
        z = np.stack(cols, 1)
    z = z[np.isfinite(z).all(1)]
    c = 0
    for r in z:
        h = hash(r.tobytes())
        if h not in stats["hashes"]:
            stats["hashes"].add(h)
            c += 1
    stats["nontrivial"] += c


# --------------------------------------------------------------------------- relations
class Rel:
    """check(**base) raises Violation/Skip; cases drawn by Hypothesis (n_a) and
    expanded from Hypothesis-drawn seeds (n_b x n_sc)."""

    def __init__(self, prop, name, base, n_a=120, n_b=20, n_sc=15, weight=1.0):
        self.prop, self.name, self.base = prop, name, base
        self.n_a, self.n_b, self.n_sc, self.weight = n_a, n_b, n_sc, weight

    def __call__(self, f):
        self.f = f
        assert self.name not in RELS, self.name
        RELS[self.name] = self
        return f


def run_rel_case(rel, b, stats):
    CURRENT["stats"] = stats
    try:
        try:
            rel.f(**b)
        except (TypeError, ValueError, IndexError, AttributeError, KeyError) as e:
            if isinstance(e, np.linalg.LinAlgError):
                raise
            raise Violation("result not of the documented form: %s: %s" % (type(e).__name__, str(e)[:200]))
    except Skip:
        stats["skipped"] += 1
        return
    except Violation as v:
        v.msg = "%s: %s" % (rel.name, v.msg)
        v.payload = {"kind": "rel", "rel": rel.name, "base": jsonable(b), "detail": v.payload}
        raise
    stats["evaluations"] += 1
    h = hash(repr(b))
    if h not in stats["hashes"]:
        stats["hashes"].add(h)
        stats["nontrivial"] += 1
        if len(stats["samples"]) < 2:
            stats["samples"].append(jsonable(b))


# --------------------------------------------------------------------------- tasks
def run_task(task):
    """task = (kind, name, mode, seed, scale) -> result dict (never raises Violation)."""
    kind, name, mode, seed, scale = task
    import time
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis import strategies as st
    from hypothesis.errors import Flaky
    stats = new_stats()
    t0 = time.time()
    last = {}
    obj = SPECS[name] if kind == "spec" else RELS[name]
    n_ex = max(3, int((obj.n_a if mode == "A" else obj.n_b) * scale))
    phases = (Phase.generate, Phase.shrink) if mode == "A" else (Phase.generate,)
    sett = settings(max_examples=n_ex, deadline=None, database=None, phases=phases,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck), print_blob=False)

    def guard(fn):
        arm()
        try:
            fn()
        except Violation as v:
            last["v"] = v
            raise

    if kind == "spec" and mode == "A":
        def body(data):
            b = draw_base(data, obj.base)

            def go():
                try:
                    args = run_scalar_case(obj, b, stats)
                except Skip:
                    stats["skipped"] += 1
                    return
                stats["evaluations"] += 1
                _nontrivial(stats, args)
            guard(go)
        test = given(st.data())(body)
    elif kind == "spec":
        lays = [x for x in (LAYOUTS_VEC if obj.vec else ("scalar", "pyint")) if x not in obj.no]

        def body(s, lay, big):
            n = obj.n_pts * (8 if big == 0 and obj.vref else 1)
            if big == 1:
                n = 7 + s % 40
            guard(lambda: run_bulk_case(obj, s, lay, n, stats))
        test = given(st.integers(0, 2 ** 31 - 1), st.sampled_from(lays), st.integers(0, 9))(body)
    elif mode == "A":
        def body(data):
            b = draw_base(data, obj.base)
            guard(lambda: run_rel_case(obj, b, stats))
        test = given(st.data())(body)
    else:
        def body(s):
            rng = np.random.default_rng(s)
            for _ in range(obj.n_sc):
                b = {}
                for k, d in obj.base.items():
                    b[k] = d.rand1(rng) if d.cat else _round12(
                        d.rand(rng, 1, {q: np.array([w]) for q, w in b.items() if isinstance(w, float)})[0])
                guard(lambda: run_rel_case(obj, b, stats))
        test = given(st.integers(0, 2 ** 31 - 1))(body)

    test = hseed(_seed_of(name + mode, seed))(sett(test))
    out = {"name": name, "mode": mode, "violation": None, "error": None}
    try:
        test()
    except Violation as v:
        out["violation"] = {"msg": v.msg, "payload": v.payload}
    except Flaky:
        v = last.get("v")
        if v is None:
            raise
        out["violation"] = {"msg": v.msg + " (depends on call history)", "payload": v.payload}
    except Hang as e:
        out["violation"] = {"msg": "%s: %s" % (name, e), "payload": {"kind": "hang", "name": name, "mode": mode}}
    except BaseException as e:  # noqa: BLE001
        import traceback
        out["error"] = traceback.format_exc()[-3000:] if not isinstance(e, KeyboardInterrupt) else "interrupted"
    arm(False)
    stats.pop("hashes")
    out["stats"] = stats
    out["wall"] = time.time() - t0
    return out


def replay(payload):
    """Re-run one recorded failure without Hypothesis; raises Violation if it still fails."""
    st = new_stats()
    k = payload["kind"]
    if k == "spec":
        run_scalar_case(SPECS[payload["spec"]], payload["base"], st, payload.get("ints", False))
    elif k == "args":
        spec = SPECS[payload["spec"]]
        bad = spec.judge(payload["args"], st)
        if bad is not None:
            raise Violation("%s: %s" % (spec.path, bad[1]))
    elif k == "bulk":
        run_bulk_case(SPECS[payload["spec"]], payload["seed"], payload["layout"], payload["n"], st)
    elif k == "rel":
        run_rel_case(RELS[payload["rel"]], payload["base"], st)
    else:
        raise RuntimeError("unknown replay kind %r" % k)
