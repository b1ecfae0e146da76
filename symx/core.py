"""Symbolic values, path exploration and the solver interface.

The implementation under test is the real Python code of /repo.  It is run with
`Sym` values (wrappers round z3 terms) in place of numbers.  Every branch on a
symbolic condition is put to the solver: feasible sides become separate paths
(depth-first re-execution over recorded decisions).  At the end of a path the
assertions of the property are put to the solver under the path condition.

Real arithmetic: a Python float constant is read as the decimal number it is
printed as (rounded to 13 significant digits); rounding of float operations is outside the claim.
"""

import math
import sys
import time
from fractions import Fraction

_Z3_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # the interpreter of /repo's environment has no z3 of its own
    sys.path.append(_Z3_DIR)
    import z3

    sys.path.remove(_Z3_DIR)

import numpy as np

sys.set_int_max_str_digits(0)  # models may contain long rationals


class Unsupported(BaseException):
    """The engine cannot encode what the code does (never swallowed by `except Exception`)."""


class PathAbort(BaseException):
    """This path ends here (infeasible assumption)."""


class PropertyFailed(BaseException):
    """An assertion of the harness was refuted on this path."""

    def __init__(self, label, model, detail=""):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


class PathLimit(BaseException):
    pass


# ---------------------------------------------------------------------------
# constants


def frac_of(x):
    """The rational a concrete number stands for."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(format(float(x), ".13g"))


def _round_frac(q, digits=11):
    if q == 0 or q.denominator == 1 and abs(q.numerator) < 10**digits:
        return q
    try:
        f = float(q)
    except OverflowError:
        return q
    if f == 0.0 or math.isinf(f):
        return q
    r = Fraction(format(f, f".{digits}g"))
    return r


def rv(x):
    q = frac_of(x)
    return z3.RealVal(str(q.numerator) + "/" + str(q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)


def is_special(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_))


# ---------------------------------------------------------------------------
# the current run

_EX = None  # the current Explorer


def ex():
    if _EX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return _EX


class Stats:
    FIELDS = ("paths", "branches", "queries", "obligations", "discharged", "trivial", "undecided", "aborted")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Explorer:
    """One bounded exploration of a harness."""

    def __init__(self, max_paths=4000, time_limit=600.0, query_ms=8000, seed=1):
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.query_ms = query_ms
        self.seed = seed
        self.stats = Stats()
        self.worklist = [[]]
        self.t_start = time.time()
        self.truncated = False

    # -- per path state --------------------------------------------------
    def begin(self, prefix):
        global _EX
        _EX = self
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 1500)
        self.inputs = {}  # name -> z3 const
        self.input_order = []
        self.picks = {}
        self.fresh_n = 0
        self.cache = {}  # uf / aux caches
        self.uf_apps = {}  # fname -> [(arg expr, value const)]
        self.names = {}
        self.keep = []  # keep z3 asts alive (ids are cache keys)
        self.last_model = None
        self.lemmas = []
        self.lemma_seen = set()
        self.covered = []
        self.trig_anchors = []

    def fresh(self, base, sort="r"):
        self.fresh_n += 1
        n = f"{base}!{self.fresh_n}"
        return {"r": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](n)

    def add(self, *es):
        for e in es:
            self.pc.append(e)
            self.solver.add(e)

    def use_lemmas(self):
        """Assert the product lemmas E(a+b) = E(a) E(b) of the exponentials seen so far."""
        did = False
        n = 0
        while self.lemmas and n < 60:
            e, v = self.lemmas.pop(0)
            for f in exp_lemmas(e, v):
                self.add(f)
                did = True
            n += 1
        return did

    # -- solving ------------------------------------------------------------
    def _timed(self, fn):
        t = time.time()
        try:
            return fn()
        finally:
            self.stats.solver_s += time.time() - t
            self.stats.queries += 1

    def sat(self, *extra, want_model=False, ms=None):
        """'sat' / 'unsat' / 'unknown' for pc and extra (and a model)."""
        extra = [z3.simplify(e) for e in extra]
        for e in extra:
            if z3.is_false(e):
                return ("unsat", None) if want_model else "unsat"
        r, m = self._timed(lambda: self._check_incremental(extra, want_model))
        if r == "unknown":
            r, m = self._timed(lambda: self._check_fresh(extra, want_model, ms or self.query_ms))
        return (r, m) if want_model else r

    def _check_incremental(self, extra, want_model):
        s = self.solver
        s.push()
        try:
            for e in extra:
                s.add(e)
            r = s.check()
            m = s.model() if (r == z3.sat and want_model) else None
            return str(r), m
        finally:
            s.pop()

    def _check_fresh(self, extra, want_model, ms):
        for mk in (
            lambda: z3.Solver(),
            lambda: z3.Then("simplify", "solve-eqs", "qfnra-nlsat").solver(),
            lambda: z3.SolverFor("QF_NRA"),
        ):
            try:
                s = mk()
                s.set("timeout", ms)
                for e in self.pc:
                    s.add(e)
                for e in extra:
                    s.add(e)
                r = s.check()
                if r != z3.unknown:
                    return str(r), (s.model() if (r == z3.sat and want_model) else None)
            except z3.Z3Exception:
                continue
        return "unknown", None

    # -- branching --------------------------------------------------------------
    def quick_unsat(self, e):
        key = ("qu", e.get_id(), len(self.pc))
        if key not in self.cache:
            self.keep.append(e)
            self.cache[key] = self._timed(lambda: self._check_incremental([e], False))[0] == "unsat"
        return self.cache[key]

    @staticmethod
    def same(a, b):
        """z3's normal forms depend on the order of creation: the two conditions may be one."""
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(a != b)
        return s.check() == z3.unsat

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            kind, key, taken, was = self.prefix[i]
            if kind != "b" or (key != cond.hash() and not self.same(cond, was)):
                raise Unsupported("non-deterministic re-execution (branch)")
            self.trace.append(self.prefix[i])
            self.add(cond if taken else z3.Not(cond))
            return taken
        self._budget()
        rt = self.sat(cond)
        rf = self.sat(z3.Not(cond)) if rt != "unsat" else "sat"
        self.stats.branches += 1
        if rt == "unsat" and rf == "unsat":
            raise PathAbort()
        if rt != "unsat" and rf != "unsat":
            alt = self.trace + [("b", cond.hash(), False, cond)]
            self.worklist.append(alt)
            taken = True
        else:
            taken = rt != "unsat"
        self.trace.append(("b", cond.hash(), taken, cond))
        self.add(cond if taken else z3.Not(cond))
        return taken

    def choose_value(self, e, limit=64):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                kind, key, taken, val = self.prefix[i]
                if kind != "v" or key != e.hash():
                    raise Unsupported("non-deterministic re-execution (value)")
                self.trace.append(self.prefix[i])
                if taken:
                    self.add(e == val)
                    return val
                self.add(e != val)
                continue
            self._budget()
            r, m = self.sat(want_model=True)
            if r == "unsat":
                raise PathAbort()
            if r != "sat":
                raise Unsupported("cannot enumerate values of an integer term")
            val = m.eval(e, model_completion=True).as_long()
            n += 1
            if n > limit:
                raise Unsupported("too many values for a symbolic index")
            self.stats.branches += 1
            if self.sat(e != val) != "unsat":
                self.worklist.append(self.trace + [("v", e.hash(), False, val)])
            self.trace.append(("v", e.hash(), True, val))
            self.add(e == val)
            return val

    def pick(self, name, n):
        """Fork over 0..n-1 (an unconstrained finite choice)."""
        if name in self.picks:
            raise Unsupported(f"duplicate pick {name}")
        i = len(self.trace)
        if i < len(self.prefix):
            kind, key, _, val = self.prefix[i]
            if kind != "p" or key != name:
                raise Unsupported("non-deterministic re-execution (pick)")
            self.trace.append(self.prefix[i])
        else:
            self._budget()
            for v in range(n - 1, 0, -1):
                self.worklist.append(self.trace + [("p", name, True, v)])
            val = 0
            self.stats.branches += 1 if n > 1 else 0
            self.trace.append(("p", name, True, 0))
        self.picks[name] = val
        return val

    def _budget(self):
        if time.time() - self.t_start > self.time_limit:
            raise PathLimit()

    # -- models ------------------------------------------------------------------
    def input_values(self, m):
        out = {}
        for n in self.input_order:
            out[n] = z3_to_py(m.eval(self.inputs[n], model_completion=True))
        for n, v in self.picks.items():
            out["pick:" + n] = v
        return out

    def nice_model(self, extra=(), rng=None, tries=2):
        """A model, preferring plain and varied values of the inputs."""
        r, m = self.sat(*extra, want_model=True)
        if r != "sat":
            return r, None
        if rng is None:
            return r, m
        fixed = []
        for n in self.input_order:
            x = self.inputs[n]
            lo, hi = self.names.get(n, (None, None))
            for _ in range(tries):
                if z3.is_bool(x):
                    c = x if rng.random() < 0.5 else z3.Not(x)
                elif z3.is_int(x):
                    a = -4 if lo is None else int(lo)
                    b = a + 8 if hi is None else int(hi)
                    c = x == int(rng.integers(a, b + 1))
                else:
                    a = (-8.0 if hi is None else float(hi) - 8.0) if lo is None else float(lo)
                    b = (a + 16.0) if hi is None else float(hi)
                    v = Fraction(int((a + (b - a) * rng.random()) * 1024), 1024) if b - a > 0.05 else Fraction(
                        format(a + (b - a) * rng.random(), ".6g")
                    )
                    c = x == z3.RealVal(str(v))
                s = self.solver
                s.push()
                s.set("timeout", 300)
                for e in list(extra) + fixed + [c]:
                    s.add(e)
                t = time.time()
                rr = s.check()
                self.stats.solver_s += time.time() - t
                self.stats.queries += 1
                if rr == z3.sat:
                    m = s.model()
                    fixed.append(c)
                s.set("timeout", 1500)
                s.pop()
                if rr == z3.sat:
                    break
                if rr == z3.unknown:
                    return r, m
        return r, m


def z3_to_py(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(30).as_fraction())
    raise Unsupported(f"model value {v}")


# ---------------------------------------------------------------------------
# symbolic scalars


def kind_of(x):
    if isinstance(x, Sym):
        return x.k
    if isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    return "r"


def term(x, k):
    """The z3 term of x at kind k."""
    if isinstance(x, Sym):
        if x.k == k:
            return x.e
        if k == "r":
            if x.k == "i":
                return z3.ToReal(x.e)
            return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
        if k == "i" and x.k == "b":
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        if k == "b":
            return x.e != 0
        raise Unsupported(f"kind {x.k} -> {k}")
    if k == "r":
        return rv(x)
    if k == "i":
        return z3.IntVal(int(x))
    if k == "b":
        return z3.BoolVal(bool(x))
    raise Unsupported(k)


def mk(e, k=None):
    """Wrap a term; constants become plain Python values."""
    if k is None:
        k = "b" if z3.is_bool(e) else ("i" if z3.is_int(e) else "r")
    if k == "b":
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    elif k == "i":
        if z3.is_int_value(e):
            return e.as_long()
    elif z3.is_rational_value(e):
        return float(e.as_fraction())
    return Sym(e, k)


def num_term(a, b):
    """Terms of two numeric operands at a common kind."""
    k = "i" if kind_of(a) in "ib" and kind_of(b) in "ib" else "r"
    return term(a, k), term(b, k), k


NAN = float("nan")
INF = float("inf")


def conv(x):
    """Python value acceptable as operand, or None."""
    if isinstance(x, Sym) or is_num(x):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return conv(x.item())
    if isinstance(x, Fraction):
        return float(x)
    return None


def s_add(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a + b
    if is_special(a) or is_special(b):
        return float(a if is_special(a) else b)
    if is_num(a) and a == 0 and b.k != "b":
        return b
    if is_num(b) and b == 0 and a.k != "b":
        return a
    ta, tb, k = num_term(a, b)
    return mk(ta + tb, k)


def s_neg(a):
    if not isinstance(a, Sym):
        return -a
    if a.k == "b":
        return mk(-term(a, "i"), "i")
    return mk(-a.e, a.k)


def s_sub(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a - b
    if is_special(a):
        return float(a)
    if is_special(b):
        return -float(b)
    if is_num(b) and b == 0 and a.k != "b":
        return a
    ta, tb, k = num_term(a, b)
    return mk(ta - tb, k)


def s_mul(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a * b
    if is_special(a) or is_special(b):
        sp, o = (a, b) if is_special(a) else (b, a)
        if math.isnan(sp):
            return NAN
        if truth(s_gt(o, 0)):
            return float(sp)
        return -float(sp) if truth(s_lt(o, 0)) else NAN
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if x == 0:
                return 0 if kind_of(x) in "ib" and kind_of(y) in "ib" else 0.0
            if x == 1 and y.k != "b":
                return y if kind_of(x) in "ib" or y.k == "r" else mk(term(y, "r"), "r")
    if kind_of(a) == "b" or kind_of(b) == "b":
        x, y = (a, b) if kind_of(a) == "b" else (b, a)
        k = "i" if kind_of(y) in "ib" else "r"
        if isinstance(x, Sym):
            zero = z3.IntVal(0) if k == "i" else z3.RealVal(0)
            return mk(z3.If(x.e, term(y, k), zero), k)
        return mk(term(y, k), k) if x else (0 if k == "i" else 0.0)
    ta, tb, k = num_term(a, b)
    return mk(ta * tb, k)


def s_div(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        if b == 0:
            a = float(a)
            return NAN if (a == 0 or math.isnan(a)) else math.copysign(INF, a)
        return a / b
    if is_special(b):
        if math.isnan(b) or is_special(a):
            return NAN
        return 0.0
    if is_special(a):
        if math.isnan(a):
            return NAN
        if truth(s_eq(b, 0)):
            return a
        return a if truth(s_gt(b, 0)) else -a
    if not isinstance(b, Sym):
        if b == 0:
            if truth(s_gt(a, 0)):
                return INF
            return -INF if truth(s_lt(a, 0)) else NAN
        return mk(term(a, "r") / rv(b), "r")
    if truth(s_eq(b, 0)):
        return s_div(a, 0.0)
    ta, tb = term(a, "r"), term(b, "r")
    if (z3.is_const(tb) and not z3.is_rational_value(tb)) and (z3.is_mul(ta) or z3.is_add(ta) or ta.eq(tb)):
        q = cancel(norm(ta), tb)
        if q is not None:
            return mk(q, "r")
    return mk(ta / tb, "r")


def s_floor(a):
    if not isinstance(a, Sym):
        return float(math.floor(a)) if not is_special(a) else a
    if a.k in "ib":
        return a
    x = ex()
    e = norm(a.e)
    key = ("floor", e.get_id())
    if key not in x.cache:
        k = x.fresh("fl", "i")
        x.keep.append(e)
        x.add(z3.And(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1))
        x.cache[key] = k
    return mk(z3.ToReal(x.cache[key]), "r")


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    if not isinstance(a, Sym):
        return float(math.trunc(a)) if not is_special(a) else a
    if a.k in "ib":
        return a
    return s_ite(s_ge(a, 0), s_floor(a), s_ceil(a)) if False else (s_floor(a) if truth(s_ge(a, 0)) else s_ceil(a))


def s_round(a):
    if not isinstance(a, Sym):
        return float(np.round(a))
    if a.k in "ib":
        return a
    f = s_floor(s_add(a, 0.5))
    # ties to even
    if truth(s_eq(s_sub(f, a), 0.5)):
        h = s_floor(s_div(f, 2))
        return f if truth(s_eq(s_mul(h, 2), f)) else s_sub(f, 1)
    return f


def s_toint(a):
    """C-like conversion to integer."""
    if not isinstance(a, Sym):
        return int(a)
    if a.k in "ib":
        return mk(term(a, "i"), "i")
    t = s_trunc(a)
    if not isinstance(t, Sym):
        return int(t)
    e = t.e
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return mk(e.arg(0), "i")
    return mk(z3.ToInt(e), "i")


def s_floordiv(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return a // b
    if kind_of(a) in "ib" and kind_of(b) in "ib":
        if not truth(s_gt(b, 0)):
            raise Unsupported("integer floor division by a non-positive number")
        return mk(term(a, "i") / term(b, "i"), "i")
    return s_floor(s_div(a, b))


def s_mod(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return np.mod(a, b)
    if is_special(a) or is_special(b):
        return NAN
    if kind_of(a) in "ib" and kind_of(b) in "ib":
        if not truth(s_gt(b, 0)):
            raise Unsupported("integer modulo by a non-positive number")
        return mk(term(a, "i") % term(b, "i"), "i")
    if truth(s_eq(b, 0)):
        return NAN
    x = ex()
    ea, eb = norm(term(a, "r")), norm(term(b, "r"))
    key = ("mod", ea.get_id(), eb.get_id())
    if key not in x.cache:
        x.keep += [ea, eb]
        q = cancel(ea, eb)
        k = s_floor(mk(q, "r") if q is not None else s_div(a, b))
        r = ea - eb * term(k, "r")
        if truth(s_gt(b, 0)):
            x.add(z3.And(r >= 0, r < eb))
        else:
            x.add(z3.And(r <= 0, r > eb))
        x.cache[key] = r
    return mk(x.cache[key], "r")


def _factors(m):
    """(coefficient, {id: (factor, power)}) of a monomial in normal form, or None."""
    parts = list(m.children()) if z3.is_mul(m) else [m]
    co, fs = Fraction(1), {}
    for p in parts:
        if z3.is_rational_value(p):
            co = co * p.as_fraction()
        elif z3.is_const(p):
            f, n = fs.get(p.get_id(), (p, 0))
            fs[p.get_id()] = (f, n + 1)
        else:
            return None
    return co, fs


def cancel(ea, eb):
    """ea / eb for a monomial eb that divides every monomial of ea (eb is not zero), or None."""
    m = _factors(eb)
    if m is None or m[0] == 0 or not m[1]:
        return None
    terms = list(ea.children()) if z3.is_add(ea) else [ea]
    if len(terms) > 12:
        return None
    out = []
    for t in terms:
        g = _factors(t)
        if g is None:
            return None
        co, fs = g[0] / m[0], dict(g[1])
        for i, (_, n) in m[1].items():
            if i not in fs or fs[i][1] < n:
                return None
            fs[i] = (fs[i][0], fs[i][1] - n)
        r = z3.RealVal(f"{co.numerator}/{co.denominator}")
        for f, n in fs.values():
            for _ in range(n):
                r = r * f
        out.append(r)
    return norm(z3.Sum(out)) if len(out) > 1 else norm(out[0])


def expand(e):
    """The expanded sum of monomials, with exact coefficients."""
    x = ex()
    key = ("exp", e.get_id())
    if key not in x.cache:
        r = z3.simplify(e, som=True, som_blowup=1000, expand_power=True)
        x.keep += [e, r]
        x.cache[key] = r
        x.cache[("exp", r.get_id())] = r
    return x.cache[key]


def _divides(e):
    """Is there a division among the sums and products of e?"""
    x = ex()
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        return True
    if not (z3.is_mul(e) or z3.is_add(e) or z3.is_sub(e)):
        return False
    key = ("div?", e.get_id())
    if key not in x.cache:
        x.keep.append(e)
        x.cache[key] = any(_divides(k) for k in e.children())
    return x.cache[key]


def _monic(n, d):
    """The quotient with a denominator whose first coefficient is one, coefficients rounded."""
    t = d.arg(0) if z3.is_add(d) else d
    c = t if z3.is_rational_value(t) else (t.arg(0) if z3.is_mul(t) and z3.is_rational_value(t.arg(0)) else None)
    if c is not None and c.as_fraction() != 0:
        inv = 1 / c.as_fraction()
        i = z3.RealVal(f"{inv.numerator}/{inv.denominator}")
        n, d = expand(n * i), expand(d * i)
    n, d = (z3.simplify(_round_coeffs(v), som=True) for v in (n, d))
    return n if z3.is_rational_value(d) and d.as_fraction() == 1 else n / d


def _common(e):
    """{id: (factor, power)} of the largest monomial dividing every term of an expanded sum."""
    best = None
    for t in e.children() if z3.is_add(e) else [e]:
        fs = {}
        for p in t.children() if z3.is_mul(t) else [t]:
            if not (z3.is_rational_value(p) or z3.is_int_value(p)):
                f, n = fs.get(p.get_id(), (p, 0))
                fs[p.get_id()] = (p, n + 1)
        best = fs if best is None else {i: (f, min(n, fs[i][1])) for i, (f, n) in best.items() if i in fs}
        if not best:
            break
    return best or {}


def _drop(e, fs):
    out = []
    for t in e.children() if z3.is_add(e) else [e]:
        left = {i: n for i, (_, n) in fs.items()}
        r = []
        for p in t.children() if z3.is_mul(t) else [t]:
            if left.get(p.get_id(), 0) > 0:
                left[p.get_id()] -= 1
            else:
                r.append(p)
        out.append(z3.Product(r) if len(r) > 1 else (r[0] if r else z3.RealVal(1)))
    return expand(z3.Sum(out) if len(out) > 1 else out[0])


def reduce_ratio(n, d):
    """Cancel the monomial common to numerator and denominator (not zero on this path)."""
    cn = _common(n)
    if not cn:
        return n, d
    cd = _common(d)
    fs = {i: (f, min(k, cd[i][1])) for i, (f, k) in cn.items() if i in cd}
    return (_drop(n, fs), _drop(d, fs)) if fs else (n, d)


def ratform(e, budget=400):
    """(numerator, denominator) without divisions, each expanded; None if it grows too large."""
    x = ex()
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return (e, z3.RealVal(1))
    key = ("rat", e.get_id())
    if key in x.cache:
        return x.cache[key]
    r = None
    x.keep.append(e)
    one = z3.RealVal(1)

    def small(t):
        return (t.num_args() if z3.is_add(t) else 1) <= budget

    kids = e.children()
    if z3.is_app_of(e, z3.Z3_OP_DIV) or z3.is_mul(e) or z3.is_add(e) or z3.is_sub(e) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
        ks = [ratform(k, budget) for k in kids]
        if all(k is not None for k in ks):
            if z3.is_app_of(e, z3.Z3_OP_DIV):
                (n1, d1), (n2, d2) = ks
                n, d = expand(n1 * d2), expand(d1 * n2)
            elif z3.is_mul(e):
                n, d = ks[0]
                for n2, d2 in ks[1:]:
                    n, d = expand(n * n2), expand(d * d2)
            else:
                groups = {}
                for i, (n2, d2) in enumerate(ks):
                    if (z3.is_sub(e) and i > 0) or z3.is_app_of(e, z3.Z3_OP_UMINUS):
                        n2 = -n2
                    t, _ = groups.get(d2.get_id(), (None, None))
                    groups[d2.get_id()] = (n2 if t is None else t + n2, d2)
                n, d = None, None
                for n2, d2 in groups.values():
                    if n is None:
                        n, d = expand(n2), d2
                    elif len(groups) > 6:
                        n = None
                        break
                    else:
                        n, d = expand(n * d2 + n2 * d), expand(d * d2)
            if n is not None and small(n) and small(d):
                r = reduce_ratio(n, d)
        if r is None and not kids:
            r = (e, one)
    else:
        r = (expand(e), one)
    x.cache[key] = r
    return r


def poly(e):
    """{monomial: coefficient} of an expanded sum."""
    out = {}
    for t in e.children() if z3.is_add(e) else [e]:
        co, key = Fraction(1), []
        for p in t.children() if z3.is_mul(t) else [t]:
            if z3.is_rational_value(p):
                co *= p.as_fraction()
            elif z3.is_int_value(p):
                co *= p.as_long()
            else:
                key.append(p.get_id())
        key = tuple(sorted(key))
        out[key] = out.get(key, 0) + co
    return out


def canonical(e):
    """A key that does not depend on the order of summands and factors."""
    if _divides(e):
        q = ratform(e)
        if q is not None:
            e = _monic(*q)
        if z3.is_app_of(e, z3.Z3_OP_DIV):
            return (frozenset(poly(e.arg(0)).items()), frozenset(poly(e.arg(1)).items()))
    return frozenset(poly(e).items())


def same_ratio(a, b, tol=Fraction(1, 10**8)):
    """Are the terms equal as quotients of polynomials, up to the rounding of their coefficients?"""
    ra, rb = ratform(a), ratform(b)
    if ra is None or rb is None:
        return False
    p, q = expand(ra[0] * rb[1]), expand(rb[0] * ra[1])
    pa, pb = poly(p), poly(q)
    for k in set(pa) | set(pb):
        u, v = pa.get(k, Fraction(0)), pb.get(k, Fraction(0))
        if abs(u - v) > tol * max(abs(u), abs(v)):
            return False
    return True


def near(a, b, tol):
    """Do two polynomials differ by at most tol for all inputs within their bounds?"""
    x = ex()
    d = a - b
    if _divides(a) or _divides(b):
        r = ratform(d)
        if r is None or not z3.is_rational_value(r[1]) or r[1].as_fraction() == 0:
            return False
        d, tol = r[0], tol * abs(r[1].as_fraction())
    total = Fraction(0)
    d = expand(d)
    if (d.num_args() if z3.is_add(d) else 1) > 400:
        return False
    for t in d.children() if z3.is_add(d) else [d]:
        m, todo = Fraction(1), [t]
        while todo:
            p = todo.pop()
            if z3.is_mul(p):
                todo += p.children()
                continue
            if z3.is_rational_value(p):
                m *= abs(p.as_fraction())
                continue
            lo, hi = x.names.get(p.decl().name(), (None, None)) if z3.is_const(p) else (None, None)
            if isinstance(lo, (Sym, type(None))) or isinstance(hi, (Sym, type(None))):
                return False
            m *= max(abs(Fraction(float(lo))), abs(Fraction(float(hi))))
        total += m
        if total > tol:
            return False
    return True


def has_ite(e):
    x = ex()
    key = ("ite?", e.get_id())
    if key not in x.cache:
        x.keep.append(e)
        x.cache[key] = z3.is_app_of(e, z3.Z3_OP_ITE) or any(has_ite(k) for k in e.children())
    return x.cache[key]


def _flatten(cond):
    """A comparison of quotients as one of polynomials, where the sign of the denominator is decided."""
    for op, kind in ((z3.is_ge, "ge"), (z3.is_le, "le"), (z3.is_gt, "gt"), (z3.is_lt, "lt")):
        if op(cond) and z3.is_real(cond.arg(0)):
            r = ratform(cond.arg(0) - cond.arg(1))
            if r is None or z3.is_rational_value(r[1]) and r[1].as_fraction() <= 0:
                return cond
            n, d = r
            if not z3.is_rational_value(d) and not ex().quick_unsat(d <= 0):
                return cond
            pos = {i: v for i, v in _common(n).items() if ex().quick_unsat(v[0] <= 0)}
            n = _drop(n, pos) if pos else n
            return {"ge": n >= 0, "le": n <= 0, "gt": n > 0, "lt": n < 0}[kind]
    return cond


def resolve(e):
    """e with every case distinction that the path condition decides replaced by its branch."""
    x = ex()
    if not has_ite(e):
        return e
    key = ("res", e.get_id())
    if key in x.cache:
        return x.cache[key]
    x.keep.append(e)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        cond = _flatten(resolve(e.arg(0)))
        if z3.is_true(cond) or (not z3.is_false(cond) and x.quick_unsat(z3.Not(cond))):
            r = resolve(e.arg(1))
        elif z3.is_false(cond) or x.quick_unsat(cond):
            r = resolve(e.arg(2))
        else:
            r = z3.If(cond, resolve(e.arg(1)), resolve(e.arg(2)))
    else:
        r = e.decl()(*[resolve(k) for k in e.children()])
    x.keep.append(r)
    x.cache[key] = r
    return r


def s_fmod(a, b):
    r = s_mod(a, b)
    if not isinstance(r, Sym):
        return np.fmod(a, b) if not isinstance(a, Sym) and not isinstance(b, Sym) else r
    if truth(s_ge(a, 0)) == truth(s_gt(b, 0)) or truth(s_eq(r, 0)):
        return r
    return s_sub(r, b)


def _cmp(a, b, op):
    if is_special(a) or is_special(b):
        if (is_special(a) and math.isnan(a)) or (is_special(b) and math.isnan(b)):
            return op == "ne"
        if is_special(a) and is_special(b):
            x, y = a, b
        elif is_special(a):
            x, y = a, 0.0
        else:
            x, y = 0.0, b
        return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        return bool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])
    if kind_of(a) == "b" and kind_of(b) == "b" and op in ("eq", "ne"):
        ta, tb = term(a, "b"), term(b, "b")
    else:
        ta, tb, _ = num_term(a, b)
    if ta.eq(tb):
        return op in ("le", "ge", "eq")
    e = {
        "lt": lambda: ta < tb,
        "le": lambda: ta <= tb,
        "gt": lambda: ta > tb,
        "ge": lambda: ta >= tb,
        "eq": lambda: ta == tb,
        "ne": lambda: ta != tb,
    }[op]()
    return mk(z3.simplify(e), "b")


def s_lt(a, b):
    return _cmp(a, b, "lt")


def s_le(a, b):
    return _cmp(a, b, "le")


def s_gt(a, b):
    return _cmp(a, b, "gt")


def s_ge(a, b):
    return _cmp(a, b, "ge")


def s_eq(a, b):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return False if (isinstance(a, Sym) or isinstance(b, Sym)) else a == b
    return _cmp(a, b, "eq")


def s_ne(a, b):
    return s_not(s_eq(a, b))


def tobool(x):
    """bool or Sym of kind b."""
    if isinstance(x, Sym):
        return x if x.k == "b" else mk(z3.simplify(x.e != 0), "b")
    return bool(x)


def s_not(a):
    a = tobool(a)
    return mk(z3.simplify(z3.Not(a.e)), "b") if isinstance(a, Sym) else not a


def s_and(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, Sym):
        return b if a else False
    if not isinstance(b, Sym):
        return a if b else False
    return mk(z3.simplify(z3.And(a.e, b.e)), "b")


def s_or(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, Sym):
        return True if a else b
    if not isinstance(b, Sym):
        return True if b else a
    return mk(z3.simplify(z3.Or(a.e, b.e)), "b")


def s_xor(a, b):
    a, b = tobool(a), tobool(b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a != b
    return mk(z3.simplify(z3.Xor(term(a, "b"), term(b, "b"))), "b")


def truth(x):
    """Resolve to a Python bool (forks)."""
    if isinstance(x, Sym):
        return ex().branch(tobool(x).e) if isinstance(tobool(x), Sym) else tobool(x)
    return bool(x)


def s_ite(c, a, b):
    """c ? a : b without forking when both sides are finite numbers."""
    c = tobool(c)
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    if not isinstance(a, Sym) and not isinstance(b, Sym) and is_num(a) and is_num(b) and a == b:
        return a
    oka = isinstance(a, Sym) or (is_num(a) and not is_special(a))
    okb = isinstance(b, Sym) or (is_num(b) and not is_special(b))
    if not (oka and okb):
        return a if truth(c) else b
    if kind_of(a) == "b" and kind_of(b) == "b":
        return mk(z3.simplify(z3.If(c.e, term(a, "b"), term(b, "b"))), "b")
    ta, tb, k = num_term(a, b)
    return mk(z3.If(c.e, ta, tb), k)


def s_abs(a):
    if not isinstance(a, Sym):
        return abs(a)
    if a.k == "b":
        return a
    return s_ite(s_ge(a, 0), a, s_neg(a))


def s_sign(a):
    if not isinstance(a, Sym):
        return np.sign(a)
    return s_ite(s_gt(a, 0), 1.0, s_ite(s_lt(a, 0), -1.0, 0.0))


def _nan(x):
    return is_special(x) and math.isnan(x)


def s_max(a, b):
    if _nan(a) or _nan(b):
        return NAN
    return s_ite(s_ge(a, b), a, b)


def s_min(a, b):
    if _nan(a) or _nan(b):
        return NAN
    return s_ite(s_le(a, b), a, b)


def s_isnan(a):
    return False if isinstance(a, Sym) else bool(np.isnan(a))


def s_isinf(a):
    return False if isinstance(a, Sym) else bool(np.isinf(a))


def s_isfinite(a):
    return True if isinstance(a, Sym) else bool(np.isfinite(a))


# ---------------------------------------------------------------------------
# transcendental functions (Ackermannised uninterpreted functions plus facts)


def norm(e):
    """Normal form of a term: expanded sum of monomials, coefficients rounded to 11 digits."""
    x = ex()
    key = ("norm", e.get_id())
    hit = x.cache.get(key)
    if hit is not None:
        return hit
    if z3.is_int(e):
        r = z3.simplify(e)
    else:
        r = z3.simplify(e, som=True, som_blowup=1000, expand_power=True)
        r = z3.simplify(_round_coeffs(r), som=True)
    x.keep += [e, r]
    x.cache[key] = r
    x.cache[("norm", r.get_id())] = r
    return r


def _round_coeffs(e):
    if z3.is_rational_value(e):
        q = _round_frac(e.as_fraction())
        return z3.RealVal(f"{q.numerator}/{q.denominator}")
    if z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e):
        args = [_round_coeffs(c) for c in e.children()]
        r = args[0]
        for a in args[1:]:
            r = r + a if z3.is_add(e) else (r * a if z3.is_mul(e) else r - a)
        return r
    return e


def const_of(e):
    return float(e.as_fraction()) if z3.is_rational_value(e) else None


def _leading_negative(e):
    """Is the first coefficient of a normal form negative?"""
    if z3.is_rational_value(e):
        return e.as_fraction() < 0
    if z3.is_add(e):
        return _leading_negative(e.arg(0)) if not z3.is_rational_value(e.arg(0)) or e.num_args() < 2 else _leading_negative(e.arg(1))
    if z3.is_mul(e):
        return z3.is_rational_value(e.arg(0)) and e.arg(0).as_fraction() < 0
    return False


def uf(name, arg, facts):
    """The value of function `name` at (normalised) `arg`; `facts(e, v)` yields facts about v."""
    x = ex()
    key = ("uf", name, arg.get_id())
    if key in x.cache:
        return x.cache[key]
    ckey = ("uf", name, canonical(arg))
    if ckey in x.cache:
        x.keep.append(arg)
        x.cache[key] = x.cache[ckey]
        return x.cache[key]
    apps = x.uf_apps.setdefault(name, [])
    for a2, v2 in apps[:40]:
        if near(arg, a2, Fraction(1, 10**9)):  # the same up to rounding
            x.keep.append(arg)
            x.cache[key] = x.cache[ckey] = v2
            return v2
    v = x.fresh(name, "r")
    x.keep.append(arg)
    x.cache[key] = x.cache[ckey] = v
    for f in facts(arg, v):
        x.add(f)
    mono = name in ("E", "L", "sqrt", "atan", "asin", "sinh", "asinh", "tanh", "erf")
    anti = name in ("acos",)
    if len(apps) <= 14:
        for a2, v2 in apps:
            if mono:
                x.add(z3.And((arg < a2) == (v < v2), (arg == a2) == (v == v2)))
            elif anti:
                x.add(z3.And((arg < a2) == (v > v2), (arg == a2) == (v == v2)))
            else:
                x.add(z3.Implies(arg == a2, v == v2))
    apps.append((arg, v))
    return v


def s_exp10(a):
    if not isinstance(a, Sym):
        try:
            return float(10.0 ** float(a))
        except OverflowError:
            return INF
    x = ex()
    e = norm(term(a, "r"))
    c = const_of(e)
    if c is not None:
        return s_exp10(c)
    back = x.cache.get(("expinv", e.get_id()))
    if back is not None:
        return back
    v = uf("E", e, lambda t, v: [v > 0, (t > 0) == (v > 1), (t == 0) == (v == 1)])
    r = mk(v, "r")
    x.cache[("loginv", v.get_id())] = mk(e, "r")
    if e.get_id() not in x.lemma_seen:
        x.lemma_seen.add(e.get_id())
        x.lemmas.append((e, v))
    return r


def exp_lemmas(e, v):
    """Facts tying E(e) to the exponentials of the parts of e."""
    parts = list(e.children()) if z3.is_add(e) else [e]
    const = [p for p in parts if z3.is_rational_value(p)]
    rest = [p for p in parts if not z3.is_rational_value(p)]
    if const and rest:
        inner = s_exp10(mk(norm(z3.Sum(rest)) if len(rest) > 1 else norm(rest[0]), "r"))
        cst = s_exp10(float(const[0].as_fraction()))
        return [v == rv(cst) * term(inner, "r")]
    if len(rest) > 1:
        prod = None
        for p in rest:
            t = term(s_exp10(mk(norm(p), "r")), "r")
            prod = t if prod is None else prod * t
        return [v == prod]
    if rest and _leading_negative(rest[0]):
        inner = s_exp10(mk(norm(-rest[0]), "r"))
        return [v * term(inner, "r") == 1]
    return []


LN10 = math.log(10.0)


def s_exp(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return float(np.exp(float(a)))
    return s_exp10(s_mul(a, 1.0 / LN10))


def s_log10(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return float(np.log10(float(a)))
    x = ex()
    e = norm(term(a, "r"))
    c = const_of(e)
    if c is not None:
        return s_log10(c)
    back = x.cache.get(("loginv", e.get_id()))
    if back is not None:
        return back
    if not truth(s_gt(a, 0)):
        return -INF if truth(s_eq(a, 0)) else NAN
    # log10(c * E(t)) = log10(c) + t
    if z3.is_mul(e) and e.num_args() == 2 and z3.is_rational_value(e.arg(0)):
        back = x.cache.get(("loginv", e.arg(1).get_id()))
        if back is not None and e.arg(0).as_fraction() > 0:
            return s_add(back, s_log10(float(e.arg(0).as_fraction())))
        if back is None:
            inner = s_log10(mk(e.arg(1), "r"))
            return s_add(inner, s_log10(float(e.arg(0).as_fraction())))
    v = uf("L", e, lambda t, v: [(t > 1) == (v > 0), (t == 1) == (v == 0)])
    x.cache[("expinv", v.get_id())] = mk(e, "r")
    return mk(v, "r")


def s_log(a):
    r = s_log10(a)
    return s_mul(r, LN10) if isinstance(r, Sym) else (r * LN10 if not isinstance(a, Sym) else r)


def s_log2(a):
    return s_mul(s_log10(a), 1.0 / math.log10(2.0))


def s_log1p(a):
    return s_log(s_add(1.0, a)) if isinstance(a, Sym) else float(np.log1p(a))


def s_expm1(a):
    return s_sub(s_exp(a), 1.0) if isinstance(a, Sym) else float(np.expm1(a))


def s_exp2(a):
    return s_exp10(s_mul(a, math.log10(2.0))) if isinstance(a, Sym) else float(2.0**a)


def s_sqrt(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return float(np.sqrt(float(a)))
    if truth(s_lt(a, 0)):
        return NAN
    e = norm(term(a, "r"))
    c = const_of(e)
    if c is not None:
        return math.sqrt(c)
    v = uf("sqrt", e, lambda t, v: [v >= 0, v * v == t])
    return mk(v, "r")


def s_cbrt(a):
    if not isinstance(a, Sym):
        return float(np.cbrt(a))
    e = norm(term(a, "r"))
    return mk(uf("cbrt", e, lambda t, v: [v * v * v == t]), "r")


def s_pow(a, b):
    if not (isinstance(a, Sym) or isinstance(b, Sym)):
        with np.errstate(all="ignore"):
            if kind_of(a) in "ib" and kind_of(b) in "ib" and b >= 0:
                return int(a) ** int(b)
            return float(np.float64(a) ** np.float64(b))
    if not isinstance(b, Sym):
        if is_special(b):
            raise Unsupported("power with a non-finite exponent")
        q = frac_of(b)
        if q.denominator == 1:
            n = int(q)
            if n == 0:
                return 1.0
            if abs(n) <= 12:
                r = a
                for _ in range(abs(n) - 1):
                    r = s_mul(r, a)
                return r if n > 0 else s_div(1.0, r)
        if q == Fraction(1, 2):
            return s_sqrt(a)
        if q == Fraction(-1, 2):
            return s_div(1.0, s_sqrt(a))
        if not truth(s_ge(a, 0)):
            return NAN
        if truth(s_eq(a, 0)):
            return 0.0 if q > 0 else INF
        return s_exp10(s_mul(s_log10(a), float(b)))
    if not isinstance(a, Sym):
        if is_special(a):
            raise Unsupported("power of a non-finite base")
        if a > 0:
            return s_exp10(s_mul(b, math.log10(float(a)))) if a != 10 else s_exp10(b)
        raise Unsupported("non-positive base with symbolic exponent")
    if b.k == "i":
        return s_pow(a, ex().choose_value(b.e))
    if truth(s_gt(a, 0)):
        return s_exp10(s_mul(s_log10(a), b))
    raise Unsupported("symbolic power of a non-positive base")


def _odd(fn_name):
    """sin-like: odd function; returns (sign, arg)."""


def _trig(a):
    e = norm(term(a, "r"))
    c = const_of(e)
    if c is not None:
        return c, None, 1
    sgn = 1
    if _leading_negative(e):
        e = norm(-e)
        sgn = -1
    x = ex()
    key = ("trig", e.get_id())
    if key not in x.cache:
        s = uf("sin", e, lambda t, v: [v >= -1, v <= 1, z3.Implies(t == 0, v == 0)])
        cc = uf("cos", e, lambda t, v: [v >= -1, v <= 1, v * v + s * s == 1, z3.Implies(t == 0, v == 1)])
        hp = rv(1.5707963267949)
        x.add(z3.Implies(z3.And(e > -hp, e < hp), cc > 0))
        x.add(z3.Implies(z3.And(e > 0, e < 2 * hp), s > 0))
        x.add(z3.Implies(z3.And(e < 0, e > -2 * hp), s < 0))
        for a in x.trig_anchors:  # true facts: sin increases on [-pi/2, pi/2], cos decreases on [0, pi]
            if -1.57 <= a <= 1.57:
                lo, hi = z3.And(e >= -hp, e < rv(a)), z3.And(e > rv(a), e <= hp)
                x.add(z3.Implies(lo, s < rv(math.sin(a))), z3.Implies(hi, s > rv(math.sin(a))))
            if 0 <= a <= 3.14:
                lo, hi = z3.And(e >= 0, e < rv(a)), z3.And(e > rv(a), e <= 2 * hp)
                x.add(z3.Implies(lo, cc > rv(math.cos(a))), z3.Implies(hi, cc < rv(math.cos(a))))
        x.cache[key] = (s, cc)
    return None, x.cache[key], sgn


def _quarter_turns(a):
    """(k, rest) of an angle rest + k pi/2, where the offset is a multiple of a quarter turn up to rounding."""
    e = norm(term(a, "r"))
    if not z3.is_add(e):
        return 0, a
    consts = [c for c in e.children() if z3.is_rational_value(c)]
    if len(consts) != 1:
        return 0, a
    v = consts[0].as_fraction()
    k = round(float(v) / (math.pi / 2))
    if k == 0 or abs(float(v) - k * math.pi / 2) > 1e-10 * max(1, abs(k)):
        return 0, a
    rest = [c for c in e.children() if not z3.is_rational_value(c)]
    return k % 4, mk(norm(z3.Sum(rest) if len(rest) > 1 else rest[0]), "r")


def s_sin(a):
    if not isinstance(a, Sym):
        return float(np.sin(a))
    k, rest = _quarter_turns(a)
    if k:
        r = s_cos(rest) if k % 2 else s_sin(rest)
        return r if k == 1 else s_neg(r)
    inv = _inv_trig(a, "asin")
    if inv is not None:
        return inv
    inv = _inv_trig(a, "acos")
    if inv is not None:
        return s_sqrt(s_sub(1.0, s_mul(inv, inv)))
    c, sc, sgn = _trig(a)
    if c is not None:
        return math.sin(c)
    r = mk(sc[0], "r")
    return r if sgn > 0 else s_neg(r)


def s_cos(a):
    if not isinstance(a, Sym):
        return float(np.cos(a))
    k, rest = _quarter_turns(a)
    if k:
        r = s_sin(rest) if k % 2 else s_cos(rest)
        return r if k == 3 else s_neg(r)
    inv = _inv_trig(a, "acos")
    if inv is not None:
        return inv
    c, sc, _ = _trig(a)
    if c is not None:
        return math.cos(c)
    return mk(sc[1], "r")


def _inv_trig(a, which):
    """sin(asin(x)) -> x, cos(acos(x)) -> x."""
    x = ex()
    e = norm(term(a, "r"))
    return x.cache.get((which + "inv", e.get_id()))


def s_tan(a):
    if not isinstance(a, Sym):
        return float(np.tan(a))
    return s_div(s_sin(a), s_cos(a))


HALF_PI = 1.570796326795


def s_asin(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return float(np.arcsin(a))
    if not truth(s_and(s_ge(a, -1), s_le(a, 1))):
        return NAN
    e = norm(term(a, "r"))
    v = uf(
        "asin",
        e,
        lambda t, v: [v >= -rv(HALF_PI), v <= rv(HALF_PI), (t == 1) == (v == rv(HALF_PI)), (t == -1) == (v == -rv(HALF_PI)), (t > 0) == (v > 0), (t == 0) == (v == 0)],
    )
    x = ex()
    nv = norm(v)
    x.cache.setdefault(("asininv", nv.get_id()), mk(e, "r"))
    x.keep.append(nv)
    return mk(v, "r")


def s_acos(a):
    if not isinstance(a, Sym):
        with np.errstate(all="ignore"):
            return float(np.arccos(a))
    if not truth(s_and(s_ge(a, -1), s_le(a, 1))):
        return NAN
    e = norm(term(a, "r"))
    v = uf("acos", e, lambda t, v: [v >= 0, v <= rv(2 * HALF_PI), (t == 1) == (v == 0), (t == -1) == (v == rv(2 * HALF_PI))])
    x = ex()
    nv = norm(v)
    x.cache.setdefault(("acosinv", nv.get_id()), mk(e, "r"))
    x.keep.append(nv)
    return mk(v, "r")


def s_atan(a):
    if not isinstance(a, Sym):
        return float(np.arctan(a))
    e = norm(term(a, "r"))
    return mk(uf("atan", e, lambda t, v: [v > -rv(HALF_PI), v < rv(HALF_PI), (t > 0) == (v > 0), (t == 0) == (v == 0)]), "r")


def s_atan2(y, x):
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        return float(np.arctan2(y, x))
    if truth(s_gt(x, 0)):
        return s_atan(s_div(y, x))
    if truth(s_lt(x, 0)):
        base = s_atan(s_div(y, x))
        return s_add(base, math.pi) if truth(s_ge(y, 0)) else s_sub(base, math.pi)
    if truth(s_gt(y, 0)):
        return HALF_PI
    return -HALF_PI if truth(s_lt(y, 0)) else 0.0


def s_sinh(a):
    return s_mul(0.5, s_sub(s_exp(a), s_exp(s_neg(a))))


def s_cosh(a):
    return s_mul(0.5, s_add(s_exp(a), s_exp(s_neg(a))))


def s_tanh(a):
    if not isinstance(a, Sym):
        return float(np.tanh(a))
    return mk(uf("tanh", norm(term(a, "r")), lambda t, v: [v > -1, v < 1, (t > 0) == (v > 0), (t == 0) == (v == 0)]), "r")


def s_generic(name, fn, facts=lambda t, v: []):
    def f(a):
        if not isinstance(a, Sym):
            with np.errstate(all="ignore"):
                return float(fn(a))
        e = norm(term(a, "r"))
        c = const_of(e)
        if c is not None:
            return float(fn(c))
        return mk(uf(name, e, facts), "r")

    return f


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_deg2rad(a):
    return s_mul(a, math.pi / 180.0)


def s_rad2deg(a):
    return s_mul(a, 180.0 / math.pi)


# ---------------------------------------------------------------------------


TOKENS = {}  # words of text files that stand for symbolic numbers


class Sym:
    """A symbolic scalar of kind r (real), i (integer) or b (boolean)."""

    __slots__ = ("e", "k")
    __array_priority__ = 1000.0

    def __init__(self, e, k):
        self.e = e
        self.k = k

    # numpy interoperation is set in arrays.py
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            from . import arrays

            return arrays.elementwise(f, o, self) if rev else arrays.elementwise(f, self, o)
        c = conv(o)
        if c is None:
            return NotImplemented
        return f(c, self) if rev else f(self, c)

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, s_sub, True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_div)

    def __rtruediv__(self, o):
        return self._bin(o, s_div, True)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, s_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._bin(o, s_mod, True)

    def __pow__(self, o):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._bin(o, s_pow, True)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __lt__(self, o):
        return self._bin(o, s_lt)

    def __le__(self, o):
        return self._bin(o, s_le)

    def __gt__(self, o):
        return self._bin(o, s_gt)

    def __ge__(self, o):
        return self._bin(o, s_ge)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return self._bin(o, s_eq)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return True
        return self._bin(o, s_ne)

    def __hash__(self):
        return 0x5E5E

    def __and__(self, o):
        return self._bin(o, s_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, s_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, s_xor)

    __rxor__ = __xor__

    def __invert__(self):
        if self.k == "b":
            return s_not(self)
        if self.k == "i":
            return s_sub(s_neg(self), 1)
        raise TypeError("bad operand type for unary ~: 'float'")

    def __bool__(self):
        return truth(self)

    def __index__(self):
        if self.k == "b":
            return int(truth(self))
        if self.k == "i":
            return ex().choose_value(self.e)
        raise TypeError("a symbolic real cannot be used as an index")

    def __int__(self):
        t = s_toint(self)
        return t if isinstance(t, int) else ex().choose_value(t.e)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        if n is None:
            return s_toint(s_round(self))
        f = 10.0**n
        return s_div(s_round(s_mul(self, f)), f)

    def __floor__(self):
        return s_toint(s_floor(self))

    def __ceil__(self):
        return s_toint(s_ceil(self))

    def __trunc__(self):
        return s_toint(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.e}>"

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    # numpy-scalar-like conveniences
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t, copy=True):
        from . import arrays

        return arrays.cast_scalar(self, t)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype({"r": np.float64, "i": np.int64, "b": np.bool_}[self.k])

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def is_integer(self):
        return True if self.k == "i" else truth(s_eq(s_floor(self), self))

    # numpy calls these for object arrays
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log10(self):
        return s_log10(self)

    def log(self):
        return s_log(self)

    def sin(self):
        return s_sin(self)

    def cos(self):
        return s_cos(self)

    def conjugate(self):
        return self

    def flatten(self):
        from . import arrays

        return arrays.wrap([self])


import numbers  # noqa: E402

numbers.Number.register(Sym)
