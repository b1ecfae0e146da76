"""Object arrays of symbolic values and a stand-in for the numpy module."""

import functools
import math
import types

import numpy as np

from . import core as c
from .core import Sym, Unsupported, truth

UF1 = {
    "negative": c.s_neg,
    "positive": lambda a: a,
    "absolute": c.s_abs,
    "fabs": c.s_abs,
    "sign": c.s_sign,
    "sqrt": c.s_sqrt,
    "cbrt": c.s_cbrt,
    "square": lambda a: c.s_mul(a, a),
    "reciprocal": lambda a: c.s_div(1.0, a),
    "exp": c.s_exp,
    "exp2": c.s_exp2,
    "expm1": c.s_expm1,
    "log": c.s_log,
    "log10": c.s_log10,
    "log2": c.s_log2,
    "log1p": c.s_log1p,
    "sin": c.s_sin,
    "cos": c.s_cos,
    "tan": c.s_tan,
    "arcsin": c.s_asin,
    "arccos": c.s_acos,
    "arctan": c.s_atan,
    "sinh": lambda a: c.s_sinh(a) if isinstance(a, Sym) else float(np.sinh(a)),
    "cosh": lambda a: c.s_cosh(a) if isinstance(a, Sym) else float(np.cosh(a)),
    "tanh": c.s_tanh,
    "arcsinh": c.s_generic("asinh", np.arcsinh),
    "arccosh": c.s_generic("acosh", np.arccosh),
    "arctanh": c.s_generic("atanh", np.arctanh),
    "deg2rad": c.s_deg2rad,
    "radians": c.s_deg2rad,
    "rad2deg": c.s_rad2deg,
    "degrees": c.s_rad2deg,
    "floor": c.s_floor,
    "ceil": c.s_ceil,
    "trunc": c.s_trunc,
    "rint": c.s_round,
    "isnan": c.s_isnan,
    "isinf": c.s_isinf,
    "isfinite": c.s_isfinite,
    "logical_not": c.s_not,
    "invert": lambda a: c.s_not(a) if c.kind_of(a) == "b" else ~a,
    "conjugate": lambda a: a,
    "signbit": lambda a: c.s_lt(a, 0),
}

UF2 = {
    "add": c.s_add,
    "subtract": c.s_sub,
    "multiply": c.s_mul,
    "divide": c.s_div,
    "true_divide": c.s_div,
    "floor_divide": c.s_floordiv,
    "remainder": c.s_mod,
    "mod": c.s_mod,
    "fmod": c.s_fmod,
    "power": c.s_pow,
    "float_power": c.s_pow,
    "maximum": c.s_max,
    "minimum": c.s_min,
    "fmax": lambda a, b: b if c._nan(a) else (a if c._nan(b) else c.s_max(a, b)),
    "fmin": lambda a, b: b if c._nan(a) else (a if c._nan(b) else c.s_min(a, b)),
    "less": c.s_lt,
    "less_equal": c.s_le,
    "greater": c.s_gt,
    "greater_equal": c.s_ge,
    "equal": c.s_eq,
    "not_equal": c.s_ne,
    "logical_and": c.s_and,
    "logical_or": c.s_or,
    "logical_xor": c.s_xor,
    "bitwise_and": c.s_and,
    "bitwise_or": c.s_or,
    "bitwise_xor": c.s_xor,
    "hypot": c.s_hypot,
    "arctan2": c.s_atan2,
    "copysign": lambda a, b: c.s_ite(c.s_ge(b, 0), c.s_abs(a), c.s_neg(c.s_abs(a))),
    "heaviside": lambda a, b: c.s_ite(c.s_lt(a, 0), 0.0, c.s_ite(c.s_gt(a, 0), 1.0, b)),
}

IDENT = {
    "add": 0.0,
    "multiply": 1.0,
    "logical_and": True,
    "logical_or": False,
    "bitwise_and": True,
    "bitwise_or": False,
}


def has_sym(x):
    """Does x (scalar, sequence, array) contain a symbolic value?"""
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        if isinstance(x, np.ma.MaskedArray):
            return has_sym(x.data) if x.dtype == object else False
        if x.dtype != object:
            return False
        return any(isinstance(v, (Sym, SymArr)) or (isinstance(v, (list, tuple)) and has_sym(v)) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return any(isinstance(v, Sym) for v in x)
    return _is_pandas(x) and x.dtype == object and has_sym(x.to_numpy())


def _is_pandas(x):
    return type(x).__module__.startswith("pandas") and hasattr(x, "to_numpy") and hasattr(x, "dtype")


def base(x):
    return np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x


def _tidy_obj(a):
    """Plain Python numbers inside object arrays."""
    return a


def wrap(x):
    """A SymArr of x (nested lists, arrays, scalars)."""
    if isinstance(x, SymArr):
        return x
    if isinstance(x, np.ma.MaskedArray):
        x = x.filled(np.nan) if x.dtype != object else x.data
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SymArr)
        a = x.astype(object) if x.dtype.kind in "biuf" else x
        return a.view(SymArr) if a.dtype == object else x
    if _is_pandas(x):
        return wrap(x.to_numpy())
    if isinstance(x, Sym) or c.is_num(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArr)
    if isinstance(x, (list, tuple)):
        return _from_nested(x)
    if hasattr(x, "__array__"):
        return wrap(np.asarray(x))
    if hasattr(x, "__iter__"):
        return _from_nested(list(x))
    return x


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if _is_pandas(x):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        shapes = [_shape(v) for v in x]
        if any(s != shapes[0] for s in shapes):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + shapes[0]
    return ()


def _from_nested(x):
    shp = _shape(x)
    out = np.empty(shp, dtype=object)
    if len(shp) == 1:
        for i, v in enumerate(x):
            out[i] = v.item() if isinstance(v, np.ndarray) and v.ndim == 0 else v
    else:
        for i, v in enumerate(x):
            out[i] = base(wrap(v))
    return out.view(SymArr)


def lower(x):
    """A native float/int/bool array if nothing in x is symbolic, else x."""
    if not isinstance(x, np.ndarray) or x.dtype != object:
        return x
    flat = x.ravel().tolist()
    ks = set()
    for v in flat:
        if isinstance(v, (bool, np.bool_)):
            ks.add("b")
        elif isinstance(v, (int, np.integer)):
            ks.add("i")
        elif isinstance(v, (float, np.floating)):
            ks.add("f")
        else:
            return x
    if ks <= {"b"} and ks:
        return np.array(flat, dtype=bool).reshape(x.shape)
    if ks <= {"i"} and ks:
        return np.array(flat, dtype=np.int64).reshape(x.shape)
    return np.array(flat, dtype=float).reshape(x.shape)


def unbox(a):
    """0-d results become scalars."""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def elementwise(f, *args):
    arrs = [base(wrap(a)) for a in args]
    b = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    shp = b[0].shape
    out = np.empty(shp, dtype=object)
    if shp == ():
        return f(*[x.item() if isinstance(x, np.ndarray) else x for x in b])
    flats = [x.ravel().tolist() for x in b]
    of = [f(*vs) for vs in zip(*flats)]
    for i, v in enumerate(of):
        out.flat[i] = v
    return out.view(SymArr)


def _mask_result(a):
    """Boolean results: native when nothing is symbolic."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        n = lower(a)
        if n.dtype == bool:
            return n
        if a.size == 0:
            return np.zeros(a.shape, dtype=bool)
    return a


_BOOL_UFUNCS = {
    "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
    "logical_not", "logical_xor", "isnan", "isinf", "isfinite", "invert", "bitwise_and", "bitwise_or", "signbit",
    "bitwise_xor",
}  # fmt: skip


def apply_ufunc(ufunc, method, inputs, kwargs):
    kwargs = dict(kwargs)
    out = kwargs.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("subok", None)
    kwargs.pop("order", None)
    name = ufunc.__name__
    for x in inputs:
        if isinstance(x, str) or (isinstance(x, np.ndarray) and x.dtype.kind in "US"):
            return ufunc(*[base(i) for i in inputs], **kwargs)
        if not (isinstance(x, (Sym, np.ndarray, list, tuple)) or c.is_num(x) or _is_pandas(x)):
            if isinstance(x, np.generic):
                continue
            return NotImplemented
    if method == "__call__":
        if name == "matmul" or name == "vecdot":
            r = matmul(*inputs)
        elif name == "divmod":
            return elementwise(c.s_floordiv, *inputs), elementwise(c.s_mod, *inputs)
        elif name == "modf":
            t = elementwise(c.s_trunc, *inputs)
            return elementwise(c.s_sub, inputs[0], t), t
        else:
            f = UF1.get(name) if ufunc.nin == 1 else UF2.get(name)
            if f is None:
                low = [lower(base(wrap(x))) for x in inputs]
                if any(isinstance(x, np.ndarray) and x.dtype == object for x in low):
                    raise Unsupported(f"ufunc {name}")
                r = ufunc(*low, **kwargs)
                r = wrap(r) if isinstance(r, np.ndarray) else r
            else:
                if where is not True:
                    prev = out if out is not None else wrap(np.zeros(np.broadcast(*[base(wrap(x)) for x in inputs]).shape))
                    w = _concrete_mask(where)
                    r = elementwise(lambda w, p, *xs: f(*xs) if w else p, w, prev, *inputs)
                else:
                    r = elementwise(f, *inputs)
        if name in _BOOL_UFUNCS:
            r = _mask_result(r)
        if isinstance(out, IntArr) and not is_int_array(r) and any(c.kind_of(x) == "r" for x in base(wrap(r)).ravel().tolist()):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        if out is not None:
            if isinstance(out, np.ndarray) and out.dtype != object:
                if has_sym(r):
                    raise Unsupported(f"in-place {name} of symbolic values into a native array")
                out[...] = lower(base(r)) if isinstance(r, np.ndarray) else r
            else:
                base(out)[...] = base(r) if isinstance(r, np.ndarray) else r
            return out
        return r
    if method in ("reduce", "accumulate"):
        f = UF2.get(name)
        if f is None:
            raise Unsupported(f"{name}.{method}")
        a = base(wrap(inputs[0]))
        axis = kwargs.get("axis", 0)
        if method == "accumulate":
            r = _accumulate(f, a, axis)
        else:
            r = _reduce(f, a, axis, kwargs.get("keepdims", False), kwargs.get("initial", None), IDENT.get(name), where)
        if name in _BOOL_UFUNCS:
            r = _mask_result(r)
        if out is not None:
            base(out)[...] = base(r) if isinstance(r, np.ndarray) else r
            return out
        return r
    if method == "outer":
        a, b = base(wrap(inputs[0])), base(wrap(inputs[1]))
        return elementwise(UF2[name], a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        a, idx = inputs[0], inputs[1]
        idx = conc_index(idx)
        if len(inputs) == 2:
            for i in np.atleast_1d(idx):
                a[i] = UF1[name](a[i])
        else:
            bvals = np.broadcast_to(base(wrap(inputs[2])), np.shape(np.atleast_1d(idx)))
            for i, v in zip(np.atleast_1d(idx), bvals):
                a[i] = UF2[name](a[i], v)
        return None
    raise Unsupported(f"{name}.{method}")


def _reduce(f, a, axis, keepdims, initial, ident, where=True):
    if initial is not None and not isinstance(initial, (Sym,)) and not c.is_num(initial):
        initial = None
    if where is not True:
        w = np.broadcast_to(_concrete_mask(where), a.shape)
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = tuple(ax % a.ndim for ax in (axis if isinstance(axis, tuple) else (axis,))) if a.ndim else ()
    keep = [i for i in range(a.ndim) if i not in axes]
    at = np.transpose(a, keep + list(axes)).reshape([a.shape[i] for i in keep] + [-1])
    wt = np.transpose(w, keep + list(axes)).reshape(at.shape) if where is not True else None
    out = np.empty(at.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        vs = at[ix].tolist() if at.ndim > 1 else at.tolist()
        if wt is not None:
            vs = [v for v, k in zip(vs, wt[ix] if wt.ndim > 1 else wt) if k]
        if initial is not None:
            vs = [initial] + vs
        if not vs:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = ident
        else:
            acc = vs[0]
            if f in (c.s_and, c.s_or):
                acc = c.tobool(acc)
            for v in vs[1:]:
                acc = f(acc, v)
        out[ix] = acc
    if keepdims:
        return out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)]).view(SymArr)
    return unbox(out) if out.ndim == 0 else out.view(SymArr)


def _accumulate(f, a, axis):
    if axis is None:
        a = a.ravel()
        axis = 0
    out = np.array(a, dtype=object)
    m = np.moveaxis(out, axis, 0)
    for i in range(1, m.shape[0]):
        m[i] = base(elementwise(f, m[i - 1], m[i]))
    return out.view(SymArr)


def matmul(a, b):
    a, b = base(wrap(a)), base(wrap(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: scalar operand")
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    if a2.ndim > 2 or b2.ndim > 2:
        raise Unsupported("matmul on stacks")
    if a2.shape[1] != b2.shape[0]:
        raise ValueError("matmul: shape mismatch")
    out = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(out.shape[0]):
        for j in range(out.shape[1]):
            acc = 0.0
            for k in range(a2.shape[1]):
                acc = c.s_add(acc, c.s_mul(a2[i, k], b2[k, j]))
            out[i, j] = acc
    r = out
    if a.ndim == 1:
        r = r[0]
    if b.ndim == 1:
        r = r[..., 0]
    return unbox(r) if np.ndim(r) == 0 else r.view(SymArr)


# ---------------------------------------------------------------------------
# indices


def _concrete_mask(m):
    if isinstance(m, (Sym, bool, np.bool_)):
        return truth(m)
    m = base(wrap(m)) if not isinstance(m, np.ndarray) or m.dtype == object else base(m)
    if m.dtype != object:
        return m.astype(bool)
    return np.array([truth(c.tobool(v)) for v in m.ravel().tolist()], dtype=bool).reshape(m.shape)


def _index_part(i):
    if isinstance(i, Sym):
        return i.__index__() if i.k != "b" else truth(i)
    if _is_pandas(i):
        i = i.to_numpy()
    if isinstance(i, list) and has_sym(i):
        i = wrap(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        vals = i.ravel().tolist()
        if not vals:
            return np.zeros(i.shape, dtype=int)
        ks = {c.kind_of(v) for v in vals}
        if ks == {"b"}:
            return _concrete_mask(i)
        if "r" in ks:
            if all(isinstance(v, (float, np.floating)) for v in vals):
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            raise Unsupported("index array with real symbolic values")
        return np.array([int(v) for v in vals], dtype=int).reshape(i.shape)
    if isinstance(i, slice):
        return slice(*[_index_part(s) if isinstance(s, Sym) else s for s in (i.start, i.stop, i.step)])
    return i


def conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(_index_part(i) for i in idx)
    return _index_part(idx)


class FlagDtype:
    """dtype of symbolic arrays: object for numpy, float-like for the code."""


class PlainArr(np.ndarray):
    """A concrete ndarray that accepts symbolic masks and indices (decided by forking)."""

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, conc_index(idx))

    def __setitem__(self, idx, val):
        np.ndarray.__setitem__(self, conc_index(idx), val)


class SymArr(np.ndarray):
    """ndarray of dtype object whose operations are interpreted symbolically."""

    __array_priority__ = 900.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return apply_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        return call_np(func, args, kwargs)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.array([x is o or (isinstance(x, str) and x == o) for x in self.view(np.ndarray).ravel().tolist()], dtype=bool).reshape(self.shape)
        return np.ndarray.__eq__(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return ~(self == o)
        return np.ndarray.__ne__(self, o)

    __hash__ = None

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, conc_index(idx))
        return r

    def __setitem__(self, idx, val):
        # a symbolic mask with a scalar value merges instead of forking
        if isinstance(idx, np.ndarray) and idx.dtype == object and idx.shape == self.shape:
            vals = idx.ravel().tolist()
            if vals and all(c.kind_of(v) == "b" for v in vals):
                v = val
                if isinstance(v, np.ndarray) and v.ndim == 0:
                    v = v.item()
                if isinstance(v, Sym) or c.is_num(v):
                    b = self.view(np.ndarray)
                    for i, m in enumerate(vals):
                        b.flat[i] = c.s_ite(m, v, b.flat[i])
                    return
        if isinstance(val, SymArr):
            val = base(val)
        elif isinstance(val, (list, tuple)):
            val = base(wrap(val))
        elif _is_pandas(val):
            val = base(wrap(val))
        if isinstance(val, np.ndarray) and val.ndim == 0:
            val = val.item()
        np.ndarray.__setitem__(self.view(np.ndarray), conc_index(idx), val)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return truth(c.tobool(self.ravel().view(np.ndarray)[0]))

    def __float__(self):
        v = self.view(np.ndarray).item()
        return v.__float__()

    def __int__(self):
        return int(self.view(np.ndarray).item())

    def __index__(self):
        v = self.view(np.ndarray).item()
        return v.__index__()

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield np.ndarray.__getitem__(self, i)

    def __contains__(self, v):
        return any(truth(c.s_eq(v, x)) for x in self.ravel().tolist())

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __repr__(self):
        return "SymArr(" + repr(self.tolist()) + ")"

    __str__ = __repr__

    def astype(self, dtype=None, *a, **k):
        return cast_array(self, dtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_sum(self, axis=axis, keepdims=keepdims, **k)

    def prod(self, axis=None, keepdims=False, **k):
        return _reduce(c.s_mul, base(self), axis, keepdims, None, 1.0)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np_mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return UF1_apply("sqrt", np_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return np_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return _reduce(c.s_min, base(self), axis, keepdims, initial, None)

    def max(self, axis=None, out=None, keepdims=False, initial=None, **k):
        return _reduce(c.s_max, base(self), axis, keepdims, initial, None)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _mask_result(_reduce(c.s_or, base(self), axis, keepdims, None, False))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _mask_result(_reduce(c.s_and, base(self), axis, keepdims, None, True))

    def argmin(self, axis=None, **k):
        return np_argext(self, axis, c.s_lt)

    def argmax(self, axis=None, **k):
        return np_argext(self, axis, c.s_gt)

    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)

    def argsort(self, axis=-1, **k):
        return np_argsort(self, axis)

    def cumsum(self, axis=None, **k):
        return _accumulate(c.s_add, base(self), axis)

    def clip(self, min=None, max=None, **k):
        return np_clip(self, min, max)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, decimals=0, out=None):
        return elementwise(lambda v: c.s_round(v) if decimals == 0 else c.s_div(c.s_round(c.s_mul(v, 10.0**decimals)), 10.0**decimals), self)

    def nonzero(self):
        return np.nonzero(_concrete_mask(self))

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side, sorter)

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def take(self, idx, axis=None, **k):
        return np.ndarray.take(self.view(np.ndarray), _index_part(idx), axis=axis).view(SymArr) if np.ndim(idx) else (
            self.view(np.ndarray).take(_index_part(idx), axis=axis)
        )

    def byteswap(self, *a, **k):
        return self


def UF1_apply(name, x):
    return elementwise(UF1[name], x) if isinstance(x, np.ndarray) else UF1[name](x)


def _dtype_kind(dtype):
    """'f', 'i', 'b', 'O', 'U' or None for a dtype argument."""
    if dtype is None:
        return None
    if isinstance(dtype, str):
        try:
            return {"u": "i"}.get(np.dtype(dtype).kind, np.dtype(dtype).kind)
        except TypeError:
            return None
    if dtype is float or getattr(dtype, "_symx_float", False):
        return "f"
    if dtype is int:
        return "i"
    if dtype is bool:
        return "b"
    if dtype is object:
        return "O"
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return None
    return {"u": "i"}.get(k, k)


def cast_scalar(v, dtype):
    k = _dtype_kind(dtype)
    if k in (None, "O"):
        return v
    if k == "f":
        if isinstance(v, Sym):
            return v if v.k == "r" else c.mk(c.term(v, "r"), "r")
        return float(v)
    if k == "i":
        return c.s_toint(v)
    if k == "b":
        return c.tobool(v)
    if k == "U" and not isinstance(v, Sym):
        return str(v)
    raise Unsupported(f"cast of a symbolic value to {dtype}")


def cast_array(a, dtype):
    k = _dtype_kind(dtype)
    if k in (None, "O"):
        return a.copy()
    if k in "fib":
        r = elementwise(lambda v: cast_scalar(v, dtype), a) if a.ndim else wrap(cast_scalar(a.item(), dtype))
        if k == "b":
            r = _mask_result(r)
        elif k == "i":
            lo = lower(base(r))
            if lo.dtype != object:
                return lo.astype(np.int64)
        return r
    lo = lower(base(a))
    if lo.dtype != object:
        return lo.astype(dtype)
    return base(a).astype(dtype)


# ---------------------------------------------------------------------------
# numpy functions


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    w = base(wrap(a))
    r = _reduce(c.s_add, w, axis, keepdims, initial, 0.0, where)
    if isinstance(r, Sym) and r.k == "b" or isinstance(r, bool):
        r = c.s_add(r, 0) if isinstance(r, Sym) else int(r)
    return r


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    w = base(wrap(a))
    n = w.size if axis is None else int(np.prod([w.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
    if n == 0:
        return c.NAN
    s = np_sum(w, axis=axis, keepdims=keepdims, where=where)
    return elementwise(c.s_div, s, n) if isinstance(s, np.ndarray) else c.s_div(s, float(n))


def np_var(a, axis=None, ddof=0, keepdims=False, **k):
    w = wrap(a)
    m = np_mean(w, axis=axis, keepdims=True)
    d = elementwise(c.s_sub, w, m)
    n = w.size if axis is None else w.shape[axis]
    s = np_sum(elementwise(c.s_mul, d, d), axis=axis, keepdims=keepdims)
    return elementwise(c.s_div, s, n - ddof) if isinstance(s, np.ndarray) else c.s_div(s, float(n - ddof))


def np_std(a, axis=None, ddof=0, keepdims=False, **k):
    return UF1_apply("sqrt", np_var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def np_any(a, axis=None, out=None, keepdims=False, where=True):
    return _mask_result(_reduce(c.s_or, base(wrap(a)), axis, keepdims, None, False, where))


def np_all(a, axis=None, out=None, keepdims=False, where=True):
    return _mask_result(_reduce(c.s_and, base(wrap(a)), axis, keepdims, None, True, where))


def np_min(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _reduce(c.s_min, base(wrap(a)), axis, keepdims, initial, None, where)


def np_max(a, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _reduce(c.s_max, base(wrap(a)), axis, keepdims, initial, None, where)


def np_nanmin(a, axis=None, **k):
    vs = [v for v in base(wrap(a)).ravel().tolist() if not c._nan(v)]
    if axis is not None:
        raise Unsupported("nanmin axis")
    return _reduce(c.s_min, base(wrap(vs)), None, False, None, None)


def np_nanmax(a, axis=None, **k):
    vs = [v for v in base(wrap(a)).ravel().tolist() if not c._nan(v)]
    if axis is not None:
        raise Unsupported("nanmax axis")
    return _reduce(c.s_max, base(wrap(vs)), None, False, None, None)


def np_argext(a, axis, better):
    w = base(wrap(a))
    if axis is None:
        w = w.ravel()
        axis = 0
    w = np.moveaxis(w, axis, -1)

    def one(vs):
        if not vs:
            raise ValueError("attempt to get argmin/argmax of an empty sequence")
        bi = 0
        for i in range(1, len(vs)):
            if c._nan(vs[bi]):
                break
            if c._nan(vs[i]) or truth(better(vs[i], vs[bi])):
                bi = i
        return bi

    if w.ndim == 1:
        return one(w.tolist())
    out = np.empty(w.shape[:-1], dtype=int)
    for ix in np.ndindex(*out.shape):
        out[ix] = one(w[ix].tolist())
    return out


def _cmp_key(x, y):
    xn, yn = c._nan(x), c._nan(y)
    if xn or yn:
        return 0 if xn and yn else (1 if xn else -1)
    if isinstance(x, str) or isinstance(y, str):
        return -1 if x < y else (1 if x > y else 0)
    if truth(c.s_lt(x, y)):
        return -1
    return 1 if truth(c.s_gt(x, y)) else 0


def _sort1(vs):
    return sorted(range(len(vs)), key=functools.cmp_to_key(lambda i, j: _cmp_key(vs[i], vs[j])))


def np_argsort(a, axis=-1, kind=None, order=None, stable=None):
    w = base(wrap(a))
    if axis is None:
        w = w.ravel()
        axis = 0
    w = np.moveaxis(w, axis, -1)
    out = np.empty(w.shape, dtype=int)
    for ix in np.ndindex(*w.shape[:-1]):
        out[ix] = _sort1(w[ix].tolist())
    return np.moveaxis(out, -1, axis)


def np_sort(a, axis=-1, kind=None, order=None, stable=None):
    w = base(wrap(a))
    idx = np_argsort(w, axis)
    if axis is None:
        return w.ravel()[idx].view(SymArr)
    return np.take_along_axis(w, idx, axis).view(SymArr)


def np_lexsort(keys, axis=-1):
    ks = [base(wrap(k)).tolist() for k in keys][::-1]
    n = len(ks[0])

    def cmp(i, j):
        for k in ks:
            r = _cmp_key(k[i], k[j])
            if r:
                return r
        return 0

    return np.array(sorted(range(n), key=functools.cmp_to_key(cmp)), dtype=int)


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, **k):
    if axis is not None:
        raise Unsupported("unique with axis")
    w = base(wrap(ar))
    vs = w.ravel().tolist()
    order = _sort1(vs)
    reps, inv, counts = [], [0] * len(vs), []
    for i in order:
        if reps and _cmp_key(vs[reps[-1]], vs[i]) == 0:
            counts[-1] += 1
        else:
            reps.append(i)
            counts.append(1)
        inv[i] = len(reps) - 1
    u = wrap([vs[i] for i in reps]) if reps else wrap(np.zeros(0))
    out = [u]
    if return_index:
        out.append(np.array(reps, dtype=int))
    if return_inverse:
        out.append(np.array(inv, dtype=int).reshape(w.shape))
    if return_counts:
        out.append(np.array(counts, dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


def np_bincount(x, weights=None, minlength=0):
    ix = [int(v) for v in base(wrap(x)).ravel().tolist()]
    out = [0.0 if weights is not None else 0] * max([minlength] + [i + 1 for i in ix])
    ws = base(wrap(weights)).ravel().tolist() if weights is not None else [1] * len(ix)
    for i, v in zip(ix, ws):
        out[i] = c.s_add(out[i], v)
    return wrap(out) if weights is not None else np.array(out, dtype=int)


def np_searchsorted(a, v, side="left", sorter=None):
    av = base(wrap(a)).tolist()
    if sorter is not None:
        av = [av[i] for i in np.asarray(sorter)]

    def one(x):
        n = 0
        # binary search over forking comparisons (the array is sorted)
        lo, hi = 0, len(av)
        while lo < hi:
            mid = (lo + hi) // 2
            go = truth(c.s_lt(av[mid], x)) if side == "left" else truth(c.s_le(av[mid], x))
            if go:
                lo = mid + 1
            else:
                hi = mid
        n = lo
        return n

    if np.ndim(v) == 0:
        return np.int64(one(v.item() if isinstance(v, np.ndarray) else v))
    w = base(wrap(v))
    return np.array([one(x) for x in w.ravel().tolist()], dtype=int).reshape(w.shape)


def np_digitize(x, bins, right=False):
    b = base(wrap(bins))
    return np_searchsorted(b, x, side="left" if right else "right")


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp with period")
    xs, fs = base(wrap(xp)).tolist(), base(wrap(fp)).tolist()
    if len(xs) != len(fs):
        raise ValueError("fp and xp are not of the same length.")
    if not xs:
        raise ValueError("array of sample points is empty")
    lo = fs[0] if left is None else left
    hi = fs[-1] if right is None else right

    def one(v):
        if c._nan(v):
            return c.NAN
        if truth(c.s_lt(v, xs[0])):
            return lo
        if truth(c.s_gt(v, xs[-1])):
            return hi
        for i in range(len(xs) - 1):
            if truth(c.s_eq(v, xs[i])):
                return fs[i]
            if truth(c.s_lt(v, xs[i + 1])):
                slope = c.s_div(c.s_sub(fs[i + 1], fs[i]), c.s_sub(xs[i + 1], xs[i]))
                return c.s_add(c.s_mul(slope, c.s_sub(v, xs[i])), fs[i])
        return fs[-1]

    if np.ndim(x) == 0:
        return one(x.item() if isinstance(x, np.ndarray) else x)
    w = base(wrap(x))
    return _obj([one(v) for v in w.ravel().tolist()]).reshape(w.shape).view(SymArr)


def _obj(vs):
    out = np.empty(len(vs), dtype=object)
    for i, v in enumerate(vs):
        out[i] = v
    return out


def np_where(cond, x=None, y=None):
    if x is None:
        return np.nonzero(_concrete_mask(cond))
    return elementwise(c.s_ite, cond, x, y) if not any(_nonnum(v) for v in (x, y)) else _where_obj(cond, x, y)


def _nonnum(v):
    return isinstance(v, str) or (isinstance(v, np.ndarray) and v.dtype.kind in "US")


def _where_obj(cond, x, y):
    return np.where(_concrete_mask(cond), base(x), base(y))


def np_select(condlist, choicelist, default=0):
    r = default
    for cnd, ch in reversed(list(zip(condlist, choicelist))):
        r = np_where(cnd, ch, r)
    return r


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = elementwise(c.s_max, r, lo)
    if hi is not None:
        r = elementwise(c.s_min, r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def np_diff(a, n=1, axis=-1, **k):
    w = wrap(a)
    for _ in range(n):
        m = np.moveaxis(base(w), axis, 0)
        w = np.moveaxis(base(elementwise(c.s_sub, m[1:], m[:-1])) if m.shape[0] > 1 else m[1:], 0, axis).view(SymArr)
    return w


def np_trapezoid(y, x=None, dx=1.0, axis=-1):
    w = np.moveaxis(base(wrap(y)), axis, -1)
    mid = elementwise(c.s_add, w[..., 1:], w[..., :-1]) if w.shape[-1] > 1 else wrap(np.zeros(w.shape[:-1] + (0,)))
    if x is None:
        d = dx
    else:
        xx = base(wrap(x))
        d = np_diff(np.moveaxis(xx, axis, -1) if xx.ndim > 1 else xx)
    t = elementwise(lambda a, b: c.s_div(c.s_mul(a, b), 2.0), mid, d)
    return np_sum(t, axis=-1)


def np_cumulative_trapezoid(y, x=None, dx=1.0, axis=-1, initial=None):
    w = base(wrap(y))
    if w.ndim != 1:
        raise Unsupported("cumulative_trapezoid nd")
    mid = elementwise(c.s_add, w[1:], w[:-1])
    d = dx if x is None else np_diff(x)
    t = elementwise(lambda a, b: c.s_div(c.s_mul(a, b), 2.0), mid, d)
    r = _accumulate(c.s_add, base(t), 0)
    if initial is not None:
        r = wrap([initial] + r.tolist())
    return r


def np_simpson(y, x=None, dx=1.0, axis=-1, **k):
    raise Unsupported("simpson")


def np_gradient(*a, **k):
    raise Unsupported("gradient")


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np_all(np_isclose(a, b, rtol, atol, equal_nan))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if c._nan(x) or c._nan(y):
            return bool(equal_nan and c._nan(x) and c._nan(y))
        if c.is_special(x) or c.is_special(y):
            return c.s_eq(x, y)
        return c.s_le(c.s_abs(c.s_sub(x, y)), c.s_add(atol, c.s_mul(rtol, c.s_abs(y))))

    return _mask_result(elementwise(one, a, b))


def np_array_equal(a, b, equal_nan=False):
    a, b = base(wrap(a)), base(wrap(b))
    if a.shape != b.shape:
        return False
    return np_all(elementwise(c.s_eq, a, b)) if a.size else True


def np_isin(a, test, assume_unique=False, invert=False, **k):
    ts = base(wrap(test)).ravel().tolist() if not isinstance(test, (set, frozenset)) else list(test)

    def one(v):
        r = False
        for t in ts:
            r = c.s_or(r, c.s_eq(v, t))
        return c.s_not(r) if invert else r

    return _mask_result(elementwise(one, a))


def np_count_nonzero(a, axis=None, keepdims=False):
    w = base(wrap(a))
    if axis is None:
        m = w.ravel().tolist()
        r = 0
        for v in m:
            r = c.s_add(r, c.s_mul(c.tobool(v), 1))
        return r
    return np.count_nonzero(_concrete_mask(w), axis=axis, keepdims=keepdims)


def np_nonzero(a):
    return np.nonzero(_concrete_mask(a))


def np_flatnonzero(a):
    return np.flatnonzero(_concrete_mask(a))


def np_argwhere(a):
    return np.argwhere(_concrete_mask(a))


def np_dot(a, b, out=None):
    a, b = wrap(a), wrap(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(c.s_mul, a, b)
    return matmul(a, b)


def np_outer(a, b, out=None):
    a, b = base(wrap(a)).ravel(), base(wrap(b)).ravel()
    return elementwise(c.s_mul, a[:, None], b[None, :])


def np_cross(a, b, **k):
    a, b = base(wrap(a)), base(wrap(b))
    m, s = c.s_mul, c.s_sub
    return wrap([s(m(a[1], b[2]), m(a[2], b[1])), s(m(a[2], b[0]), m(a[0], b[2])), s(m(a[0], b[1]), m(a[1], b[0]))])


def np_einsum(sub, *ops, **k):
    ins, out = sub.replace(" ", "").split("->")
    ins = ins.split(",")
    arrs = [base(wrap(o)) for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        for ch, n in zip(s, a.shape):
            dims[ch] = n
    summed = [ch for ch in dims if ch not in out]
    r = np.empty([dims[ch] for ch in out], dtype=object)
    for ix in np.ndindex(*r.shape):
        env = dict(zip(out, ix))
        acc = 0.0
        for jx in np.ndindex(*[dims[ch] for ch in summed]):
            env.update(zip(summed, jx))
            p = 1.0
            for s, a in zip(ins, arrs):
                p = c.s_mul(p, a[tuple(env[ch] for ch in s)])
            acc = c.s_add(acc, p)
        r[ix] = acc
    return unbox(r) if r.ndim == 0 else r.view(SymArr)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        if c._nan(v):
            return nan
        if c.is_special(v):
            return (posinf if posinf is not None else 1.7976931348623157e308) if v > 0 else (
                neginf if neginf is not None else -1.7976931348623157e308
            )
        return v

    return elementwise(one, x)


def np_median(a, axis=None, **k):
    s = np_sort(base(wrap(a)).ravel() if axis is None else wrap(a), axis=-1 if axis is None else axis)
    if axis not in (None, 0) or s.ndim != 1:
        raise Unsupported("median axis")
    v = s.tolist()
    n = len(v)
    return v[n // 2] if n % 2 else c.s_div(c.s_add(v[n // 2 - 1], v[n // 2]), 2.0)


def np_ptp(a, axis=None, **k):
    return c.s_sub(np_max(a), np_min(a))


def np_average(a, axis=None, weights=None, **k):
    if weights is None:
        return np_mean(a, axis=axis)
    num = np_sum(elementwise(c.s_mul, a, weights), axis=axis)
    den = np_sum(weights, axis=axis if np.ndim(weights) > 1 else None)
    return elementwise(c.s_div, num, den) if isinstance(num, np.ndarray) else c.s_div(num, den)


def whole(v):
    """The integer a value becomes in an array of integers."""
    if isinstance(v, Sym):
        return c.s_trunc(v)
    return int(v) if isinstance(v, float) and v == v and abs(v) != float("inf") else v


class IntArr(SymArr):
    """An array of integers: what is assigned to it is truncated."""

    def __setitem__(self, idx, val):
        if isinstance(val, (np.ndarray, list, tuple)) and not isinstance(val, IntArr):
            val = elementwise(whole, wrap(val))
        else:
            val = whole(val)
        SymArr.__setitem__(self, idx, val)


def is_int_array(a):
    """Is the dtype of an array (made from integers) an integer one?"""
    if isinstance(a, IntArr):
        return True
    if isinstance(a, np.ndarray) and a.dtype != object:
        return a.dtype.kind in "iu"
    if isinstance(a, (np.ndarray, list, tuple)):
        v = base(wrap(a)).ravel().tolist()
        return any(isinstance(x, Sym) and x.k == "i" for x in v) and all(c.kind_of(x) == "i" for x in v)
    return False


def like(value):
    def f(a, dtype=None, shape=None, **k):
        shape = np_shape(a) if shape is None else shape
        if dtype is None and is_int_array(a):
            return np_full(shape, 0 if value != value else int(value)).view(IntArr)
        return _creator(value)(shape, dtype or float)

    return f


def np_full_like(a, v, dtype=None, **k):
    shape = k.get("shape")
    shape = np_shape(a) if shape is None else shape
    if dtype is None and is_int_array(a):
        r = np_full(shape, 0).view(IntArr)
        r[...] = v
        return r
    return np_full(shape, v, dtype)


def np_full(shape, v, dtype=None, **k):
    shape = conc_shape(shape)
    out = np.empty(shape, dtype=object)
    if isinstance(v, (np.ndarray, list, tuple)) or _is_pandas(v):
        vv = base(wrap(v))
        out[...] = vv
    else:
        out.fill(v) if not isinstance(v, (list, tuple)) else None
    if _dtype_kind(dtype) == "b":
        return _mask_result(out.view(SymArr))
    if _dtype_kind(dtype) == "i":
        lo = lower(out)
        if lo.dtype != object:
            return lo.astype(int)
    if _nonnum(v) or isinstance(v, str) or v is None or (dtype is not None and _dtype_kind(dtype) not in ("f", "i", "b", "O")):
        return np.full(shape, v, dtype)
    return out.view(SymArr)


def conc_shape(s):
    if isinstance(s, Sym):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(x.__index__() if isinstance(x, Sym) else int(x) for x in s)
    return s


def _creator(value):
    def f(shape, dtype=float, order="C", **k):
        kd = _dtype_kind(dtype)
        shape = conc_shape(shape)
        if kd in ("f", None):
            return np_full(shape, value)
        if kd == "O":
            return np.full(shape, 0 if value == 0.0 else (1 if value == 1.0 else None), dtype=object).view(SymArr)
        if kd == "b":
            return np_full(shape, bool(value == value and value)).astype(bool) if False else wrapbool(shape, value)
        if kd == "i":
            return np.full(shape, int(value) if value == value else 0, dtype=int)
        return np.full(shape, "" if value != value or kd == "U" else value, dtype=dtype) if kd != "U" else np.zeros(shape, dtype=dtype)

    return f


def wrapbool(shape, value):
    out = np.empty(shape, dtype=object)
    out.fill(bool(value == value and value))
    return out.view(SymArr)


def np_arange(*args, dtype=None, start=None, stop=None, step=None, **k):
    if start is not None or stop is not None or step is not None:
        given = dict(zip(("start", "stop", "step"), args)) if len(args) > 1 or start is None and stop is not None else dict(zip(("stop",) if start is None else ("start",), args))
        given.update({n: v for n, v in (("start", start), ("stop", stop), ("step", step)) if v is not None})
        if "stop" not in given:
            given = {"start": 0, "stop": given["start"], "step": given.get("step", 1)}
        args = (given.get("start", 0), given["stop"], given.get("step", 1))
    if any(has_sym(a) for a in args):
        start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        n = c.s_ceil(c.s_div(c.s_sub(stop, start), step))
        n = c.s_toint(n)
        if isinstance(n, Sym):
            n = c.ex().choose_value(n.e, limit=40)
        n = max(0, n)
        return wrap([c.s_add(start, c.s_mul(i, step)) for i in range(n)]) if n else wrap(np.zeros(0))
    r = np.arange(*args, **({"dtype": dtype} if dtype is not None and _dtype_kind(dtype) else {}))
    return wrap(r) if r.dtype.kind == "f" else r.view(PlainArr)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    if isinstance(num, Sym):
        num = num.__index__()
    num = int(num)
    div = (num - 1) if endpoint else num
    a, b = wrap(start), wrap(stop)
    if a.ndim == 0 and b.ndim == 0:
        a0, b0 = a.item(), b.item()
        step = c.s_div(c.s_sub(b0, a0), float(div)) if div > 0 else c.NAN
        vs = [c.s_add(a0, c.s_mul(float(i), step)) if i else a0 for i in range(num)]
        if endpoint and num > 1:
            vs[-1] = b0
        r = wrap(vs) if vs else wrap(np.zeros(0))
    else:
        d = elementwise(c.s_sub, b, a)
        step = elementwise(c.s_div, d, float(div))
        r = np.stack([base(elementwise(lambda x, s: c.s_add(x, c.s_mul(float(i), s)), a, step)) for i in range(num)], axis=axis).view(SymArr)
    return (r, step) if retstep else r


def np_array(obj, dtype=None, copy=True, ndmin=0, **k):
    r = np_asarray(obj, dtype)
    if isinstance(r, np.ndarray) and copy:
        r = r.copy()
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r[None]
    return r


def np_asarray(obj, dtype=None, **k):
    kd = _dtype_kind(dtype)
    if hasattr(obj, "_symx_array"):
        obj = obj._symx_array()
    if isinstance(obj, SymArr):
        if kd in ("f", "i", "b", "U"):
            return cast_array(obj, dtype)
        return obj
    if has_sym(obj):
        r = wrap(obj)
        return cast_array(r, dtype) if kd in ("f", "i", "b", "U") else r
    if isinstance(obj, np.ndarray) and obj.dtype == object and kd in (None, "O"):
        return obj
    r = np.asarray(obj, **({"dtype": real_dtype(dtype)} if dtype is not None else {}))
    if r.dtype.kind == "f":
        return wrap(r)
    return r.view(PlainArr) if type(r) is np.ndarray else r


def real_dtype(dtype):
    if getattr(dtype, "_symx_float", False):
        return float
    return dtype


def np_atleast_1d(*arys):
    out = []
    for a in arys:
        a = np_asarray(a)
        out.append(a.reshape(1) if a.ndim == 0 else a)
    return out[0] if len(out) == 1 else tuple(out)


def np_atleast_2d(*arys):
    out = []
    for a in arys:
        a = np_asarray(a)
        out.append(a.reshape(1, 1) if a.ndim == 0 else (a[None, :] if a.ndim == 1 else a))
    return out[0] if len(out) == 1 else tuple(out)


def np_isscalar(x):
    return True if isinstance(x, Sym) else np.isscalar(x)


def np_ndim(x):
    return 0 if isinstance(x, Sym) else (x.ndim if hasattr(x, "ndim") else len(_shape(x)))


def np_shape(x):
    return _shape(x) if isinstance(x, np.ndarray) or has_sym(x) else np.shape(x)


def np_size(x, axis=None):
    if isinstance(x, Sym):
        return 1
    shp = np_shape(x)
    return int(np.prod(shp)) if axis is None else shp[axis]


def np_vectorize(pyfunc, otypes=None, signature=None, **k):
    if signature is not None:
        raise Unsupported("vectorize with a signature")

    def f(*args, **kw):
        args = [getattr(a, "values", a) if type(a).__module__.startswith("pandas") else a for a in args]
        out = _vec(pyfunc, args, kw)
        outs = out if isinstance(out, tuple) else (out,)
        types_ = [otypes] * len(outs) if isinstance(otypes, str) and len(outs) == 1 else list(otypes) if otypes is not None else [None] * len(outs)
        res = []
        for o, t in zip(outs, types_):
            flat = base(wrap(o)).ravel().tolist() if isinstance(o, (Sym, np.ndarray)) else [o]
            if not flat and t is None:
                raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
            if t is None and flat:
                t = np.asarray(flat[0]).dtype if not isinstance(flat[0], Sym) else {"r": float, "i": int}.get(flat[0].k, bool)
            isf = getattr(t, "_symx_float", False)
            t = np.dtype(float if isf else t)
            if any(isinstance(v, Sym) for v in flat):
                if t.kind in "fiub":
                    o = wrap(o).astype(t)
            else:
                o = np.array(flat, dtype=object).reshape(np.shape(o)).astype(t)
            res.append(o)
        return tuple(res) if isinstance(out, tuple) else res[0]

    return f


def _vec(pyfunc, args, kw):
    arrs = [base(wrap(a)) if not _nonnum(a) else np.asarray(a, dtype=object) for a in args]
    names = list(kw)
    arrs += [base(wrap(kw[n])) for n in names]
    b = np.broadcast_arrays(*arrs)
    shp = b[0].shape
    flats = [x.ravel().tolist() if x.ndim else [x.item()] for x in b]
    res = [pyfunc(*vs[: len(args)], **dict(zip(names, vs[len(args) :]))) for vs in zip(*flats)]
    if res and isinstance(res[0], tuple):
        outs = [_obj([r[i] for r in res]).reshape(shp) for i in range(len(res[0]))]
        return tuple(unbox(o) if o.ndim == 0 else o.view(SymArr) for o in outs)
    o = _obj(res).reshape(shp)
    return unbox(o) if o.ndim == 0 else o.view(SymArr)


def np_apply_along_axis(fn, axis, arr, *a, **k):
    w = np.moveaxis(base(wrap(arr)), axis, -1)
    rows = [fn(w[ix].view(SymArr), *a, **k) for ix in np.ndindex(*w.shape[:-1])]
    if np.ndim(rows[0]) == 0:
        return _obj(rows).reshape(w.shape[:-1]).view(SymArr)
    raise Unsupported("apply_along_axis")


def np_solve(a, b):
    """Gaussian elimination with (forked) pivot choice."""
    A = np.array(base(wrap(a)), dtype=object)
    B = np.array(base(wrap(b)), dtype=object)
    one = B.ndim == 1
    if one:
        B = B[:, None]
    n = A.shape[0]
    for i in range(n):
        p = next((r for r in range(i, n) if not truth(c.s_eq(A[r, i], 0))), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if p != i:
            A[[i, p]] = A[[p, i]]
            B[[i, p]] = B[[p, i]]
        for r in range(n):
            if r == i:
                continue
            if not isinstance(A[r, i], Sym) and A[r, i] == 0:
                continue
            f = c.s_div(A[r, i], A[i, i])
            for j in range(i, n):
                A[r, j] = c.s_sub(A[r, j], c.s_mul(f, A[i, j]))
            for j in range(B.shape[1]):
                B[r, j] = c.s_sub(B[r, j], c.s_mul(f, B[i, j]))
    for i in range(n):
        for j in range(B.shape[1]):
            B[i, j] = c.s_div(B[i, j], A[i, i])
    return (B[:, 0] if one else B).view(SymArr)


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm order")
    w = wrap(x)
    return UF1_apply("sqrt", np_sum(elementwise(c.s_mul, w, w), axis=axis, keepdims=keepdims))


def np_histogram(*a, **k):
    raise Unsupported("histogram")


def np_insert(arr, obj, values, axis=None):
    w = base(wrap(arr))
    v = base(wrap(values))
    return np.insert(w, obj, v if v.ndim else v.item(), axis=axis).view(SymArr)


def np_delete(arr, obj, axis=None):
    o = conc_index(obj)
    if isinstance(o, np.ndarray) and o.dtype == object:
        o = o.astype(int)
    return np.delete(base(wrap(arr)), o, axis=axis).view(SymArr)


def np_append(arr, values, axis=None):
    return np.append(base(wrap(arr)), base(wrap(values)), axis=axis).view(SymArr)


def np_take(a, idx, axis=None, **k):
    r = np.take(base(wrap(a)), conc_index(idx), axis=axis)
    return r.view(SymArr) if isinstance(r, np.ndarray) and r.ndim else unbox(r)


def np_copy(a, **k):
    return np_array(a)


def np_piecewise(x, condlist, funclist, *a, **k):
    w = wrap(x)
    out = wrap(np.zeros(w.shape))
    n = len(condlist)
    if len(funclist) == n + 1:
        d = True
        for cd in condlist:
            d = elementwise(lambda p, q: c.s_and(p, c.s_not(q)), d, cd)
        condlist = list(condlist) + [d]
    for cd, f in zip(condlist, funclist):
        m = _concrete_mask(cd)
        if np.any(m):
            out[m] = f(w[m]) if callable(f) else f
    return out


OVERRIDES = {
    "sum": np_sum, "nansum": lambda a, axis=None, keepdims=False, **k: np_sum(np_nan_to_num(a), axis=axis, keepdims=keepdims), "mean": np_mean, "var": np_var, "std": np_std,
    "any": np_any, "all": np_all, "min": np_min, "max": np_max, "amin": np_min, "amax": np_max,
    "nanmin": np_nanmin, "nanmax": np_nanmax,
    "argmin": lambda a, axis=None, **k: np_argext(a, axis, c.s_lt),
    "argmax": lambda a, axis=None, **k: np_argext(a, axis, c.s_gt),
    "argsort": np_argsort, "sort": np_sort, "lexsort": np_lexsort, "unique": np_unique, "bincount": np_bincount,
    "searchsorted": np_searchsorted, "digitize": np_digitize, "interp": np_interp, "where": np_where,
    "select": np_select, "clip": np_clip, "diff": np_diff, "trapezoid": np_trapezoid, "trapz": np_trapezoid,
    "allclose": np_allclose, "isclose": np_isclose, "array_equal": np_array_equal, "isin": np_isin, "in1d": np_isin,
    "count_nonzero": np_count_nonzero, "nonzero": np_nonzero, "flatnonzero": np_flatnonzero, "argwhere": np_argwhere,
    "dot": np_dot, "inner": np_dot, "vdot": np_dot, "outer": np_outer, "cross": np_cross, "einsum": np_einsum,
    "nan_to_num": np_nan_to_num, "median": np_median, "ptp": np_ptp, "average": np_average,
    "full_like": np_full_like, "zeros_like": like(0.0), "ones_like": like(1.0), "empty_like": like(c.NAN),
    "zeros": _creator(0.0), "ones": _creator(1.0), "empty": _creator(c.NAN), "full": np_full,
    "arange": np_arange, "linspace": np_linspace, "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "ascontiguousarray": np_asarray, "asfarray": np_asarray,
    "atleast_1d": np_atleast_1d, "atleast_2d": np_atleast_2d, "isscalar": np_isscalar, "ndim": np_ndim,
    "shape": np_shape, "size": np_size, "vectorize": np_vectorize, "apply_along_axis": np_apply_along_axis,
    "cumsum": lambda a, axis=None, **k: _accumulate(c.s_add, base(wrap(a)), axis),
    "cumprod": lambda a, axis=None, **k: _accumulate(c.s_mul, base(wrap(a)), axis),
    "prod": lambda a, axis=None, keepdims=False, **k: _reduce(c.s_mul, base(wrap(a)), axis, keepdims, None, 1.0),
    "insert": np_insert, "delete": np_delete, "append": np_append, "take": np_take, "copy": np_copy,
    "round": lambda a, decimals=0, **k: wrap(a).round(decimals) if np_ndim(a) else a.__round__(decimals) if isinstance(a, Sym) else np.round(a, decimals),
    "around": lambda a, decimals=0, **k: wrap(a).round(decimals) if np_ndim(a) else a.__round__(decimals) if isinstance(a, Sym) else np.round(a, decimals),
    "histogram": np_histogram, "piecewise": np_piecewise,
    "fix": lambda a: elementwise(c.s_trunc, a), "real": lambda a: a,
    "compress": lambda cond, a, **k: wrap(a)[_concrete_mask(cond)],
    "extract": lambda cond, a: wrap(a)[_concrete_mask(cond)],
    "isreal": lambda a: np.ones(np_shape(a), dtype=bool),
    "iscomplexobj": lambda a: False,
    "result_type": lambda *a: np.dtype(float),
    "may_share_memory": lambda *a, **k: False,
    "sinc": None,
}  # fmt: skip

_BENIGN = {"dtype", "copy", "order", "like", "device", "kind", "casting", "subok", "stable", "equal_nan"}


def _guard(f):
    """Refuse keyword arguments that the implementation would silently ignore."""
    import inspect

    try:
        ps = inspect.signature(f).parameters
    except (TypeError, ValueError):
        return f
    if not any(p.kind is p.VAR_KEYWORD for p in ps.values()):
        return f
    known = {n for n, p in ps.items() if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)} | _BENIGN

    @functools.wraps(f)
    def g(*a, **k):
        for n, v in k.items():
            if n not in known and v is not None and v is not False and v is not np._NoValue and not (n == "where" and v is True):
                raise Unsupported(f"numpy argument {n}")
        return f(*a, **k)

    return g


OVERRIDES = {n: (_guard(f) if isinstance(f, types.FunctionType) and n not in ("apply_along_axis", "piecewise", "vectorize") else f) for n, f in OVERRIDES.items()}
for _n in ("std", "var", "min", "max", "any", "all", "argmin", "argmax", "cumsum", "clip", "take", "mean", "prod", "sum"):
    setattr(SymArr, _n, _guard(SymArr.__dict__[_n]))

ALWAYS = {
    "zeros", "ones", "empty", "full", "array", "asarray", "asanyarray", "isscalar", "vectorize", "atleast_1d",
    "atleast_2d", "linspace", "arange", "zeros_like", "ones_like", "empty_like", "full_like", "ascontiguousarray",
    "interp", "searchsorted", "bincount", "ndim", "shape", "size", "copy",
}  # fmt: skip

_UFUNC = np.ufunc


def call_np(func, args, kwargs):
    """A numpy function called on arguments some of which are symbolic."""
    if isinstance(func, _UFUNC):
        return apply_ufunc(func, "__call__", args, kwargs)
    name = getattr(func, "__name__", None)
    mod = getattr(func, "__module__", "") or ""
    if "linalg" in mod:
        f = {"solve": np_solve, "norm": np_norm}.get(name)
        if f is None:
            raise Unsupported(f"numpy.linalg.{name}")
        return f(*args, **kwargs)
    f = OVERRIDES.get(name)
    if f is not None:
        return f(*args, **kwargs)
    # structural functions work on object arrays as they are
    impl = getattr(func, "_implementation", func)
    a2 = [_strip(a) for a in args]
    k2 = {k: _strip(v) for k, v in kwargs.items()}
    r = impl(*a2, **k2)
    return _rewrap(r)


def _strip(a):
    if isinstance(a, SymArr):
        return base(a)
    if isinstance(a, Sym):
        return base(wrap(a))
    if isinstance(a, (list, tuple)) and has_sym(a):
        return type(a)(_strip(x) for x in a) if any(isinstance(x, np.ndarray) for x in a) else base(wrap(a))
    if isinstance(a, (list, tuple)) and any(isinstance(x, SymArr) for x in a):
        return type(a)(_strip(x) for x in a)
    if _is_pandas(a):
        return base(wrap(a))
    return a


def _rewrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SymArr) if r.ndim else r.item()
    if isinstance(r, (tuple, list)):
        return type(r)(_rewrap(x) for x in r) if type(r) in (tuple, list) else r
    return r


_WRAPPED = {}


def wrap_func(func):
    """A numpy callable that also takes symbolic arguments."""
    if func in _WRAPPED:
        return _WRAPPED[func]
    name = getattr(func, "__name__", None)

    if name in ALWAYS and OVERRIDES.get(name) is not None:
        r = OVERRIDES[name]
        if not isinstance(r, types.FunctionType):
            r = functools.partial(r)
    else:

        def r(*args, **kwargs):
            if any(_symarg(a) for a in args) or any(_symarg(a) for a in kwargs.values()):
                res = call_np(func, args, kwargs)
                if res is NotImplemented:
                    return func(*args, **kwargs)
                return res
            return func(*args, **kwargs)

        if isinstance(func, _UFUNC):
            r = UfuncShim(func, r)
    _WRAPPED[func] = r
    return r


def _symarg(a):
    if isinstance(a, (Sym, SymArr)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object and (has_sym(a) or _objnum(a))
    if isinstance(a, (list, tuple)):
        return any(_symarg(x) for x in a)
    if isinstance(a, types.GeneratorType):
        return False
    return has_sym(a) or (_is_pandas(a) and a.dtype == object and _objnum(a.to_numpy()))


def _objnum(a):
    """Numbers in an object array: what is left of a symbolic array after a selection."""
    return a.size > 0 and all(c.is_num(v) for v in a.ravel().tolist())


class UfuncShim:
    def __init__(self, uf, call):
        self._uf = uf
        self._call = call

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, n):
        m = getattr(self._uf, n)
        if n in ("reduce", "accumulate", "outer", "at"):

            def f(*a, **k):
                if _symarg(a[0]) or any(_symarg(x) for x in a[1:]):
                    if n in ("reduce", "accumulate") and len(a) > 1:
                        k["axis"] = a[1]
                        a = a[:1]
                    return apply_ufunc(self._uf, n, a, k)
                return m(*a, **k)

            return f
        return m


def _sym_array_ufunc(self, ufunc, method, *inputs, **kwargs):
    return apply_ufunc(ufunc, method, inputs, kwargs)


Sym.__array_ufunc__ = _sym_array_ufunc


class NpShim(types.ModuleType):
    """Stands in for numpy (or a submodule) in the globals of the code under test."""

    def __init__(self, real, overrides=None):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = dict(overrides or {})

    def __getattr__(self, n):
        over = self.__dict__["_over"]
        if n in over:
            return over[n]
        v = getattr(self.__dict__["_real"], n)
        if n == "vectorize":
            return np_vectorize
        if isinstance(v, type):
            return v
        if isinstance(v, types.ModuleType):
            if n in ("linalg",):
                return NpShim(v)
            return v
        if callable(v):
            return wrap_func(v)
        return v


class _NpFloat64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64) or (isinstance(x, Sym) and x.k == "r")

    def __subclasscheck__(cls, s):
        return issubclass(s, np.float64)


def make_np(random=None):
    over = {}
    if random is not None:
        over["random"] = random
    return NpShim(np, over)


# ---------------------------------------------------------------------------
# jax.numpy


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, idx):
        return _AtIdx(self.a, idx)


class _AtIdx:
    def __init__(self, a, idx):
        self.a, self.idx = a, idx

    def set(self, v):
        r = self.a.copy()
        r[self.idx] = v
        return r

    def _op(self, f, v):
        r = self.a.copy()
        r[self.idx] = elementwise(f, r[self.idx], v)
        return r

    def add(self, v):
        return self._op(c.s_add, v)

    def multiply(self, v):
        return self._op(c.s_mul, v)


SymArr.at = property(lambda self: _At(self))
SymArr.block_until_ready = lambda self: self


class JnpShim(NpShim):
    """jax.numpy: the same semantics as numpy on these functions, always on symbolic arrays."""

    def __getattr__(self, n):
        real = self.__dict__["_real"]
        if n in self.__dict__["_over"]:
            return self.__dict__["_over"][n]
        if hasattr(np, n):
            v = getattr(np, n)
            if callable(v) and not isinstance(v, type):
                w = wrap_func(v)

                def g(*a, **k):
                    k.pop("method", None)
                    a = [_from_jax(x) for x in a]
                    k = {q: _from_jax(x) for q, x in k.items()}
                    return w(*a, **k)

                return g
            return v
        return getattr(real, n)


def _from_jax(x):
    t = type(x).__module__
    if t.startswith("jax") and hasattr(x, "__array__"):
        return wrap(np.asarray(x))
    return x
