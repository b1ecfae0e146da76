"""The two faces of a harness: symbolic (exploration) and concrete (replay on the unpatched code)."""

import math
import types

import numpy as np

from . import arrays, core as c
from .core import Sym, Unsupported, truth

RTOL = 1e-6
ATOL = 1e-9


class ReplayFailed(Exception):
    """The property is violated by this concrete run."""

    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class Skip(Exception):
    """The concrete inputs are outside the assumptions."""


class BaseH:
    sym = False

    # arithmetic helpers usable on both faces -------------------------------
    def And(self, *xs):
        r = True
        for x in xs:
            r = c.s_and(r, x)
        return r

    def Or(self, *xs):
        r = False
        for x in xs:
            r = c.s_or(r, x)
        return r

    def Not(self, x):
        return c.s_not(x)

    def Implies(self, a, b):
        return c.s_or(c.s_not(a), b)

    def ite(self, cond, a, b):
        return c.s_ite(cond, a, b)

    def true(self, x):
        """Decide a condition (forks when symbolic)."""
        return truth(x)

    exp = staticmethod(c.s_exp)
    exp10 = staticmethod(c.s_exp10)
    log10 = staticmethod(c.s_log10)
    log = staticmethod(c.s_log)
    sqrt = staticmethod(c.s_sqrt)
    sin = staticmethod(c.s_sin)
    cos = staticmethod(c.s_cos)
    asin = staticmethod(c.s_asin)
    acos = staticmethod(c.s_acos)
    pow = staticmethod(c.s_pow)
    floor = staticmethod(c.s_floor)
    abs = staticmethod(c.s_abs)
    max = staticmethod(c.s_max)
    min = staticmethod(c.s_min)
    rad = staticmethod(c.s_deg2rad)

    def isnan(self, x):
        return c.s_isnan(x)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def sorted_reals(self, name, n, lo=None, hi=None, gap=None):
        """n strictly increasing reals (at least `gap` apart)."""
        xs = self.reals(name, n, lo, hi)
        for a, b in zip(xs, xs[1:]):
            self.assume(c.s_lt(a, b) if gap is None else c.s_le(c.s_add(a, gap), b))
        return xs

    def trig_anchors(self, angles):
        """Angles (radians) at which the solver is told that sin and cos are monotone."""
        if self.sym:
            self.x.trig_anchors = [float(a) for a in angles]

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def flat(self, x):
        if isinstance(x, Sym | str) or x is None or c.is_num(x):
            return [x]
        return arrays.base(arrays.wrap(x)).ravel().tolist() if not isinstance(x, list) else [w for v in x for w in self.flat(v)]

    def shape(self, x):
        if isinstance(x, Sym | str) or x is None or c.is_num(x):
            return ()
        return tuple(np.shape(x)) if not arrays.has_sym(x) else tuple(arrays.wrap(x).shape)

    def close(self, got, want, label, rtol=RTOL, atol=ATOL):
        """Element-wise equality (up to the tolerance)."""
        gs, ws = self.shape(got), self.shape(want)
        if gs != ws:
            self.fail(f"{label} (shape {gs} instead of {ws})")
        for i, (g, w) in enumerate(zip(self.flat(got), self.flat(want))):
            self.close1(g, w, label if len(gs) == 0 else f"{label}[{i}]", rtol, atol)

    def scalar(self, x, label):
        """x must be a scalar (numpy scalars and 0-d arrays count)."""
        if np.ndim(x) != 0:
            self.fail(f"{label}: not a scalar")
        return x

    def raises(self, fn, exc=Exception):
        """Run fn; True if it raised exc."""
        try:
            fn()
        except exc:
            return True
        return False

    def same(self, got, want, label):
        """Equality of concrete structures."""
        if isinstance(got, np.ndarray):
            got = got.tolist()
        if isinstance(want, np.ndarray):
            want = want.tolist()
        if not got == want:
            self.fail(f"{label}: {got!r} instead of {want!r}")
        self.check(True, label)


class SymH(BaseH):
    sym = True

    def __init__(self, explorer, opts):
        self.x = explorer
        self.opts = opts
        self.rng_log = []

    def _input(self, name, sort, lo, hi):
        import z3

        if name in self.x.inputs:
            raise Unsupported(f"duplicate input {name}")
        v = {"r": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](name)
        self.x.inputs[name] = v
        self.x.input_order.append(name)
        self.x.names[name] = (lo, hi)
        s = Sym(v, sort)
        if lo is not None:
            self.x.add(c.term(s, sort) >= c.term(lo, sort))
        if hi is not None:
            self.x.add(c.term(s, sort) <= c.term(hi, sort))
        return s

    def real(self, name, lo=None, hi=None):
        return self._input(name, "r", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._input(name, "i", lo, hi)

    def bool(self, name):
        return self._input(name, "b", None, None)

    def choice(self, name, n):
        return self.x.pick(name, n)

    def token(self, v):
        """A word of a text file that reads as the number v."""
        if not isinstance(v, Sym):
            return repr(float(v))
        t = f"<{len(c.TOKENS)}>"
        c.TOKENS[t] = v
        return t

    def arr(self, x):
        w = arrays.wrap(x)
        return w.view(arrays.IntArr) if isinstance(w, arrays.SymArr) and arrays.is_int_array(w) else w

    def assume(self, cond):
        cond = c.tobool(cond)
        if not isinstance(cond, Sym):
            if not cond:
                raise c.PathAbort()
            return
        self.x.add(cond.e)
        self.x._assumed = True

    def feasible(self):
        """End the path here if the assumptions cannot hold."""
        if self.x.sat() == "unsat":
            raise c.PathAbort()

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.x.covered.append(label)

    def check(self, cond, label):
        import z3

        st = self.x.stats
        st.obligations += 1
        cond = c.tobool(cond)
        if not isinstance(cond, Sym):
            if cond:
                st.discharged += 1
                st.trivial += 1
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(cond.e))
        self._refute([neg], label)

    def _refute(self, negs, label):
        r, m = self.x.sat(*negs, want_model=True)
        while r != "unsat" and self.x.use_lemmas():
            r, m = self.x.sat(*negs, want_model=True)
        if r == "unsat":
            self.x.stats.discharged += 1
            return
        if r == "unknown":
            self.x.stats.undecided += 1
            self.x.undecided.append(label)
            return
        raise c.PropertyFailed(label, (negs, m))

    def close1(self, g, w, label, rtol=RTOL, atol=ATOL):
        import z3

        st = self.x.stats
        st.obligations += 1
        if g is w:
            st.discharged += 1
            st.trivial += 1
            return
        if isinstance(g, str) or isinstance(w, str) or g is None or w is None:
            if not isinstance(g, Sym) and not isinstance(w, Sym) and g == w:
                st.discharged += 1
                st.trivial += 1
                return
            return self._refute([z3.BoolVal(True)], f"{label}: {g!r} instead of {w!r}")
        gs, ws = c.is_special(g), c.is_special(w)
        if gs or ws:
            if gs and ws and (g == w or (math.isnan(g) and math.isnan(w))):
                st.discharged += 1
                st.trivial += 1
                return
            return self._refute([z3.BoolVal(True)], f"{label}: {g} instead of {w}")
        if not isinstance(g, Sym) and not isinstance(w, Sym):
            if abs(g - w) <= atol + rtol * max(abs(g), abs(w)):
                st.discharged += 1
                st.trivial += 1
                return
            return self._refute([z3.BoolVal(True)], f"{label}: {g} instead of {w}")
        k = "i" if c.kind_of(g) in "ib" and c.kind_of(w) in "ib" else "r"
        tg, tw = c.term(g, k), c.term(w, k)
        d = c.norm(tg - tw) if k == "r" else z3.simplify(tg - tw)
        if (z3.is_rational_value(d) or z3.is_int_value(d)) and d.as_long() == 0 if z3.is_int_value(d) else (
            z3.is_rational_value(d) and abs(d.as_fraction()) <= 0
        ):
            st.discharged += 1
            st.trivial += 1
            return
        if k == "r" and (c.same_ratio(tg, tw) or c.near(tg, tw, c.Fraction(float(atol)))):
            st.discharged += 1
            st.trivial += 1
            return
        if k == "r" and (c.has_ite(tg) or c.has_ite(tw)):
            tg, tw = c.resolve(tg), c.resolve(tw)
            if c.same_ratio(tg, tw):
                st.discharged += 1
                return
        # exact equality first; then up to the tolerance
        r = self.x.sat(tg != tw)
        if r == "unsat":
            st.discharged += 1
            return
        ab = lambda e: z3.If(e >= 0, e, -e)  # noqa: E731
        mx = z3.If(ab(tg) >= ab(tw), ab(tg), ab(tw))
        far = ab(tg - tw) > c.rv(atol) + c.rv(rtol) * mx
        self._refute([far], label)


class ConcH(BaseH):
    """Replay of recorded inputs on the unpatched code."""

    def __init__(self, values, opts=None):
        self.values = values
        self.opts = opts or {}
        self.covered = []
        self.checks = 0

    def _get(self, name, default):
        return self.values.get(name, default)

    def real(self, name, lo=None, hi=None):
        v = float(self._get(name, lo if lo is not None else (hi if hi is not None else 0.0)))
        if lo is not None and v < lo:
            v = float(lo)
        if hi is not None and v > hi:
            v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def token(self, v):
        return repr(float(v))

    def choice(self, name, n):
        return int(self._get("pick:" + name, 0))

    def arr(self, x):
        a = np.array(x)
        return a.astype(float) if a.dtype == object else a

    def assume(self, cond):
        if not cond:
            raise Skip()

    def feasible(self):
        pass

    def cover(self, label):
        self.covered.append(label)

    def fail(self, label):
        raise ReplayFailed(label)

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise ReplayFailed(label)

    def close1(self, g, w, label, rtol=RTOL, atol=ATOL):
        self.checks += 1
        if isinstance(g, str) or isinstance(w, str) or g is None or w is None:
            if not (g == w):
                raise ReplayFailed(label, f"{g!r} instead of {w!r}")
            return
        g, w = float(g), float(w)
        if math.isnan(g) and math.isnan(w) or g == w:
            return
        if not math.isfinite(g) or not math.isfinite(w) or not abs(g - w) <= atol + rtol * max(abs(g), abs(w)):
            raise ReplayFailed(label, f"{g!r} instead of {w!r}")


# ---------------------------------------------------------------------------
# scripted randomness


class ScriptedRNG(np.random.Generator):
    """A generator whose draws are inputs of the harness (symbolic or replayed)."""

    def __new__(cls, *a, **k):
        return np.random.Generator.__new__(cls, np.random.PCG64(1))

    def __init__(self, h, name, script=None):
        np.random.Generator.__init__(self, np.random.PCG64(1))
        self.h = h
        self.tag = name
        self.n = 0
        self.log = []
        self.ranges = []  # of the integer draws
        self.script = None if script is None else list(script)

    def again(self):
        """A generator in the same initial state: it repeats the draws made so far."""
        return ScriptedRNG(self.h, self.tag + "'", self.log)

    def _scripted(self, what):
        """The next recorded draw, if it is of the same kind."""
        if self.script:
            e = self.script.pop(0)
            if e[0] == what:
                self.log.append(e)
                return e
            self.script = []
        return None

    def _fresh(self, lo=None, hi=None, lo_open=False, hi_open=False, what="u"):
        e = self._scripted(what)
        if e is not None:
            return e[1]
        self.n += 1
        v = self.h.real(f"{self.tag}.{what}{self.n}", lo, hi)
        if hi_open:
            self.h.assume(c.s_lt(v, hi))
        self.log.append((what, v))
        return v

    def _fill(self, size, one, *params):
        """one(*scalars) for each element of the broadcast of params and size."""
        if size is None and all(np.ndim(p) == 0 for p in params):
            return one(*[p.item() if isinstance(p, np.ndarray) else p for p in params])
        arrs = [arrays.base(arrays.wrap(p)) for p in params]
        if size is None:
            shp = np.broadcast_shapes(*[a.shape for a in arrs]) if arrs else ()
        else:
            shp = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        bs = [np.broadcast_to(a, shp).ravel().tolist() for a in arrs]
        n = int(np.prod(shp)) if shp else 1
        vals = [one(*[b[i] for b in bs]) for i in range(n)]
        out = arrays._obj(vals).reshape(shp)
        if self.h.sym:
            return out.view(arrays.SymArr)
        return out.astype(float) if out.size else np.zeros(shp)

    def random(self, size=None, dtype=None, out=None):
        return self._fill(size, lambda: self._fresh(0.0, 1.0, hi_open=True))

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(
            size, lambda a, b: c.s_add(a, c.s_mul(self._fresh(0.0, 1.0, hi_open=True), c.s_sub(b, a))), low, high
        )

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda m, s: c.s_add(m, c.s_mul(s, self._fresh(-6.0, 6.0, what="n"))), loc, scale)

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._fill(size, lambda: self._fresh(-6.0, 6.0, what="n"))

    def exponential(self, scale=1.0, size=None):
        return self._fill(size, lambda s: c.s_mul(s, self._fresh(0.0, 20.0, what="e")), scale)

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low

        def one(a, b):
            e = self._scripted("i")
            if e is not None:
                return e[1]
            self.n += 1
            hi = b if endpoint else c.s_sub(b, 1)
            self.ranges.append((a, hi))
            k = self.h.int(f"{self.tag}.i{self.n}", None, None)
            self.h.assume(c.s_and(c.s_ge(k, a), c.s_le(k, hi)))
            self.log.append(("i", k))
            return k

        r = self._fill(size, one, low, high)
        if isinstance(r, np.ndarray):
            if self.h.sym:
                return arrays._obj([int(v) for v in r.ravel().tolist()]).reshape(r.shape).astype(dtype)
            return r.astype(dtype)
        return int(r)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if axis != 0:
            raise Unsupported("choice axis")
        seq = list(range(int(a))) if np.ndim(a) == 0 else list(a)
        n = 1 if size is None else int(np.prod(size))
        avail = list(range(len(seq)))
        if p is not None:
            pv = list(p)
            avail = [i for i in avail if truth(c.s_gt(pv[i], 0))]
        idx = []
        e = self._scripted("c")
        if e is not None and len(e[1]) == n:
            idx = list(e[1])
        else:
            for _ in range(n):
                self.n += 1
                j = avail[self.h.choice(f"{self.tag}.c{self.n}", len(avail))]
                if not replace:
                    avail.remove(j)
                idx.append(j)
            self.log.append(("c", tuple(idx), None if p is None else tuple(p), replace))
        vals = [seq[i] for i in idx]
        if size is None:
            return vals[0]
        r = np.array(vals) if not arrays.has_sym(vals) else arrays.wrap(vals)
        if r.dtype.kind == "f" and self.h.sym:
            r = arrays.wrap(r)
        return r if np.ndim(size) == 0 else r.reshape(size)

    def permutation(self, x, axis=0):
        seq = list(range(int(x))) if np.ndim(x) == 0 else list(x)
        return self.choice(seq, size=len(seq), replace=False)

    def bytes(self, n):
        e = self._scripted("y")
        if e is None:
            self.n += 1
            e = ("y", bytes([self.h.choice(f"{self.tag}.y{self.n}", 3)] * n))
            self.log.append(e)
        return e[1]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"random draw {name}")


class RandomShim(types.ModuleType):
    """numpy.random with scripted generators for unseeded use."""

    def __init__(self, factory):
        super().__init__("numpy.random")
        self.__dict__["_factory"] = factory

    def __getattr__(self, n):
        if n == "default_rng":
            return self.__dict__["_factory"]
        if n in ("Generator", "SeedSequence", "PCG64", "RandomState", "BitGenerator"):
            return getattr(np.random, n)
        if n in ("random", "uniform", "normal", "choice", "integers", "rand", "randn", "randint"):
            g = self.__dict__["_factory"](None, _global=True)
            return getattr(g, {"rand": "random", "randn": "standard_normal", "randint": "integers"}.get(n, n))
        return getattr(np.random, n)
