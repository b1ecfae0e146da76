"""Toy models, stubs and references shared by the properties."""

import numpy as np

from symx import arrays
from symx import core as c


def own_draws(h):
    """Draws made from generators the code under test created itself."""
    return [(g.tag, e[0]) for g in h.own for e in g.log]


class Interp1d:
    """scipy.interpolate.interp1d over symbolic ordinates (1-d, kind linear)."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind != "linear":
            raise c.Unsupported(f"interp1d kind {kind}")
        self.x, self.y = arrays.wrap(x), arrays.wrap(y)
        self.fill_value = fill_value
        extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.bounds_error = (not extrapolate) if bounds_error is None else bounds_error
        if extrapolate:
            raise c.Unsupported("interp1d extrapolation")

    def __call__(self, q):
        lo, hi = (self.fill_value if isinstance(self.fill_value, tuple) else (self.fill_value, self.fill_value))
        x, y = arrays.base(self.x).tolist(), arrays.base(self.y).tolist()

        def one(v):
            if c.truth(c.s_lt(v, x[0])):
                if self.bounds_error:
                    raise ValueError("A value in x_new is below the interpolation range.")
                return lo
            if c.truth(c.s_gt(v, x[-1])):
                if self.bounds_error:
                    raise ValueError("A value in x_new is above the interpolation range.")
                return hi
            # scipy: index = clip(searchsorted(x, v, side="left"), 1, n-1)
            i = 0
            while i < len(x) and c.truth(c.s_lt(x[i], v)):
                i += 1
            i = min(max(i, 1), len(x) - 1)
            s = c.s_div(c.s_sub(y[i], y[i - 1]), c.s_sub(x[i], x[i - 1]))
            return c.s_add(c.s_mul(s, c.s_sub(v, x[i - 1])), y[i - 1])

        if np.ndim(q) == 0 and not isinstance(q, np.ndarray):
            return arrays._obj([one(q)]).reshape(()).view(arrays.SymArr)
        q = arrays.wrap(q)
        return arrays._obj([one(v) for v in arrays.base(q).ravel().tolist()]).reshape(q.shape).view(arrays.SymArr)


def toy_sed_class(lo=None, hi=None, log=None):
    """A model with flux a + b t + c w + d t w; log receives each call of compute_sed."""
    from lightcurvelynx.models.physical_model import SEDModel

    class Toy(SEDModel):
        def __init__(self, a=1.0, b=0.0, c=0.0, d=0.0, **kw):
            super().__init__(**kw)
            for k, v in (("a", a), ("b", b), ("c", c), ("d", d)):
                self.add_parameter(k, v)

        def minwave(self, graph_state=None):
            return lo

        def maxwave(self, graph_state=None):
            return hi

        def compute_sed(self, times, wavelengths, graph_state, **kwargs):
            if log is not None:
                log.append((times, wavelengths, kwargs))
            p = self.get_local_params(graph_state)
            t, w = times[:, np.newaxis], wavelengths[np.newaxis, :]
            return p["a"] + p["b"] * t + p["c"] * w + p["d"] * t * w

    return Toy


def toy_flux(p, t, w):
    return p[0] + p[1] * t + p[2] * w + p[3] * t * w


def listed(h, values):
    """A parameter that takes the given values in sample order."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    return GivenValueList(h.arr(values))
