"""Put symbolic stand-ins into the globals of the code under test (in a forked child only)."""

import math
import sys
import types

import numpy as np

from . import arrays, core as c
from .core import Sym

PKG = "lightcurvelynx"


class MathShim(types.ModuleType):
    MAP = {
        "sqrt": c.s_sqrt, "exp": c.s_exp, "log10": c.s_log10, "log2": c.s_log2, "log1p": c.s_log1p, "expm1": c.s_expm1,
        "sin": c.s_sin, "cos": c.s_cos, "tan": c.s_tan, "asin": c.s_asin, "acos": c.s_acos, "atan": c.s_atan,
        "atan2": c.s_atan2, "hypot": c.s_hypot, "radians": c.s_deg2rad, "degrees": c.s_rad2deg, "fabs": c.s_abs,
        "pow": c.s_pow, "isnan": c.s_isnan, "isinf": c.s_isinf, "isfinite": c.s_isfinite, "fmod": c.s_fmod,
        "sinh": c.s_sinh, "cosh": c.s_cosh, "tanh": c.s_tanh, "exp2": c.s_exp2, "cbrt": c.s_cbrt,
        "asinh": c.s_generic("asinh", math.asinh), "acosh": c.s_generic("acosh", math.acosh),
        "atanh": c.s_generic("atanh", math.atanh),
    }  # fmt: skip

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, n):
        real = getattr(math, n)
        f = self.MAP.get(n)
        if f is None:
            if n == "log":

                def log(x, b=None):
                    if isinstance(x, Sym) or isinstance(b, Sym):
                        return c.s_log(x) if b is None else c.s_div(c.s_log(x), c.s_log(b))
                    return math.log(x) if b is None else math.log(x, b)

                return log
            if n in ("fsum", "prod"):
                return (lambda xs: arrays.np_sum(list(xs))) if n == "fsum" else real
            if n == "isclose":

                def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
                    if isinstance(a, Sym) or isinstance(b, Sym):
                        m = c.s_max(c.s_mul(rel_tol, c.s_max(c.s_abs(a), c.s_abs(b))), abs_tol)
                        return c.s_le(c.s_abs(c.s_sub(a, b)), m)
                    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

                return isclose
            return real

        def g(*a):
            if any(isinstance(x, (Sym, np.ndarray)) for x in a):
                return f(*[x.item() if isinstance(x, np.ndarray) else x for x in a])
            return real(*a)

        return g


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.k == "r")

    def __subclasscheck__(cls, s):
        return issubclass(s, float)

    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.item()
        if isinstance(x, Sym):
            return arrays.cast_scalar(x, float)
        if isinstance(x, str) and x.strip() in c.TOKENS:
            return c.TOKENS[x.strip()]
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __or__(cls, o):
        import typing

        return typing.Union[float, Sym, o]

    def __ror__(cls, o):
        import typing

        return typing.Union[o, float, Sym]

    def __getattr__(cls, n):
        return getattr(float, n)


class FloatShim(metaclass=_FloatMeta):
    _symx_float = True


def scipy_integrate_shim():
    import scipy.integrate as si

    def quad(*a, **k):
        raise c.Unsupported("quad")

    def trapezoid(y, x=None, dx=1.0, axis=-1):
        if arrays.has_sym(y) or arrays.has_sym(x):
            return arrays.np_trapezoid(y, x, dx, axis)
        return si.trapezoid(np.asarray(arrays.lower(np.asarray(y))), None if x is None else np.asarray(arrays.lower(np.asarray(x))), dx, axis)

    def simpson(y, x=None, dx=1.0, axis=-1):
        if arrays.has_sym(y) or arrays.has_sym(x):
            raise c.Unsupported("simpson")
        return si.simpson(y, x=x, dx=dx, axis=axis)

    over = {"trapezoid": trapezoid, "simpson": simpson, "cumulative_trapezoid": arrays.np_cumulative_trapezoid}
    return arrays.NpShim(si, over)


def scipy_interpolate_shim():
    import scipy.interpolate as si

    class Linear:
        """InterpolatedUnivariateSpline / make_interp_spline of degree 1 over symbolic ordinates."""

        def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
            if k != 1:
                raise c.Unsupported(f"spline of degree {k}")
            self.x, self.y, self.ext = arrays.wrap(x), arrays.wrap(y), ext
            if len(self.x) != len(self.y):
                raise ValueError("x and y should have the same length")
            if not arrays.truth(arrays.np_all(arrays.np_diff(self.x) > 0)):
                raise ValueError("x must be strictly increasing")

        def __call__(self, q):
            xs, ys = arrays.base(self.x).tolist(), arrays.base(self.y).tolist()

            def one(v):
                out = c.truth(c.s_lt(v, xs[0])) or c.truth(c.s_gt(v, xs[-1]))
                if out and self.ext in ("raise", 2):
                    raise ValueError("x out of bounds")
                if out and self.ext in ("zeros", 1):
                    return 0.0
                if out and self.ext in ("const", 3):
                    return ys[0] if c.truth(c.s_lt(v, xs[0])) else ys[-1]
                i = 1
                while i < len(xs) - 1 and c.truth(c.s_lt(xs[i], v)):
                    i += 1
                s = c.s_div(c.s_sub(ys[i], ys[i - 1]), c.s_sub(xs[i], xs[i - 1]))
                return c.s_add(c.s_mul(s, c.s_sub(v, xs[i - 1])), ys[i - 1])

            if np.ndim(q) == 0 and not isinstance(q, np.ndarray):
                return one(q)
            q = arrays.wrap(q)
            return arrays._obj([one(v) for v in arrays.base(q).ravel().tolist()]).reshape(q.shape).view(arrays.SymArr)

    return arrays.NpShim(si, {"InterpolatedUnivariateSpline": Linear})


def jit_identity(f=None, *a, **k):
    if f is None:
        return lambda g: g
    return f


def vmap_loop(f, in_axes=0, out_axes=0, **k):
    def g(*args):
        axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
        n = next(np.shape(a)[0] if not arrays.has_sym(a) else arrays.wrap(a).shape[0] for a, x in zip(args, axes) if x is not None)
        res = []
        for i in range(n):
            res.append(f(*[(a if x is None else arrays.np_take(a, i, axis=x) if x else a[i]) for a, x in zip(args, axes)]))
        if isinstance(res[0], tuple):
            return tuple(arrays.wrap(list(r)) for r in zip(*res))
        return arrays.wrap(res)

    return g


class Patcher:
    def __init__(self, random=None):
        self.np = arrays.make_np(random)
        self.undo = []
        self.random = random

    def set(self, mod, name, val):
        self.undo.append((mod, name, mod.__dict__.get(name, _MISSING)))
        setattr(mod, name, val)

    def apply(self, extra=()):
        import jax
        import jax.numpy as jnp
        import numpy.ma

        jshim = arrays.JnpShim(jnp)
        mshim = MathShim()
        integ = scipy_integrate_shim()
        interp = scipy_interpolate_shim()
        for mname, mod in list(sys.modules.items()):
            if not (mname == PKG or mname.startswith(PKG + ".")) or mod is None:
                continue
            for name, val in list(vars(mod).items()):
                if val is np:
                    self.set(mod, name, self.np)
                elif val is jnp:
                    self.set(mod, name, jshim)
                elif val is math:
                    self.set(mod, name, mshim)
                elif isinstance(val, types.ModuleType) and val.__name__ == "scipy.integrate":
                    self.set(mod, name, integ)
                elif isinstance(val, types.ModuleType) and val.__name__ == "scipy":
                    self.set(mod, name, arrays.NpShim(val, {"integrate": integ, "interpolate": interp}))
                elif isinstance(val, types.ModuleType) and val.__name__ == "scipy.interpolate":
                    self.set(mod, name, interp)
                elif val is jax.jit:
                    self.set(mod, name, jit_identity)
                elif val is jax.vmap:
                    self.set(mod, name, vmap_loop)
                elif type(val).__name__ == "PjitFunction" and hasattr(val, "__wrapped__"):
                    self.set(mod, name, val.__wrapped__)
                elif callable(val) and not isinstance(val, type) and (getattr(val, "__module__", "") or "").split(".")[0] == "numpy":
                    self.set(mod, name, arrays.wrap_func(val))
            self.set(mod, "float", FloatShim)
        for mod, name, val in extra:
            self.set(mod, name, val)

    def restore(self):
        for mod, name, old in reversed(self.undo):
            if old is _MISSING:
                delattr(mod, name)
            else:
                setattr(mod, name, old)
        self.undo = []


_MISSING = object()
