"""Wavelengths outside a model's range."""

import numpy as np

from props.common import listed, toy_flux
from symx.run import Case

KINDS = ("none", "constant", "last", "linear", "exponential")


def extrapolation(h, kind):
    """The extrapolation object and its definition f(flux at the edge, distance from the edge)."""
    from lightcurvelynx.utils import wave_extrapolate as we

    if kind == "none":
        return None, lambda f, d: 0.0
    if kind == "base":
        return we.WaveExtrapolationModel(), lambda f, d: 0.0
    if kind == "constant":
        v = h.real("value", 0.0, 10.0)
        return we.ConstantExtrapolation(v), lambda f, d: v
    if kind == "last":
        return we.LastValueExtrapolation(), lambda f, d: f
    if kind == "linear":
        w = h.real("width", 1.0, 500.0)
        return we.LinearDecay(w), lambda f, d: f * h.max(0.0, 1.0 - d / w)
    r = h.real("rate", 0.0, 0.05)
    return we.ExponentialDecay(r), lambda f, d: f * h.exp(-r * d)


def ranged(lo, hi):
    from lightcurvelynx.models.physical_model import SEDModel

    class Ranged(SEDModel):
        """Refuses wavelengths outside its range."""

        def __init__(self, a, b, c, d, lo=None, hi=None, **kw):
            super().__init__(**kw)
            for k, v in zip("abcd", (a, b, c, d)):
                self.add_parameter(k, v)
            self.bad = []
            self.add_parameter("lo", lo)
            self.add_parameter("hi", hi)

        def minwave(self, graph_state=None):
            return None if lo is None else self.get_param(graph_state, "lo")

        def maxwave(self, graph_state=None):
            return None if hi is None else self.get_param(graph_state, "hi")

        def compute_sed(self, times, wavelengths, graph_state, **kwargs):
            p = self.get_local_params(graph_state)
            self.bad += [(w, p["lo"], p["hi"]) for w in np.asarray(wavelengths).tolist()]
            t, w = times[:, None], wavelengths[None, :]
            return p["a"] + p["b"] * t + p["c"] * w + p["d"] * t * w

    return Ranged


def model(kind, red, n=1):
    """In range: the model's own flux. Outside: the rule applied to the flux at the nearest edge at the same time."""

    def fn(h):
        limits = h.pick("limits", ("both", "low", "high", "none"))
        los = h.reals("lo", n, 300.0, 500.0) if limits in ("both", "low") else None
        his = h.reals("hi", n, 600.0, 900.0) if limits in ("both", "high") else None
        p = [h.real(k, -5, 5) for k in "abcd"]
        ext, rule = extrapolation(h, kind)
        z, t0 = (h.reals("z", n, 0.1, 2.0), 0.0) if red else ([0.0] * n, None)
        m = ranged(los, his)(*p, lo=listed(h, los) if los else None, hi=listed(h, his) if his else None, wave_extrapolation=ext, node_label="m", t0=t0, **({"redshift": listed(h, z)} if red else {}))
        st = m.sample_parameters(num_samples=n)
        nw = 3 if not red and n == 1 else 2
        t, w = h.reals("time", 2, -20, 20), h.reals("wave", nw, 100, 2000)
        if red or n > 1:
            h.assume(w[0] < w[1])
        f = m.evaluate_sed(h.arr(t), h.arr(w), st)
        h.same(h.shape(f), (2, nw) if n == 1 else (n, 2, nw), "shape")
        for q, lo, hi in m.bad:
            h.check(h.And(q >= lo if lo is not None else True, q <= hi if hi is not None else True), "the model is only asked for wavelengths in its range")
        got = h.flat(f)
        for i in range(n):
            s = 1 + z[i]
            for a in range(2):
                for b in range(nw):
                    rw, rt = w[b] / s, t[a] / s
                    if los is not None and h.true(rw < los[i]):
                        v = rule(toy_flux(p, rt, los[i]), los[i] - rw)
                    elif his is not None and h.true(rw > his[i]):
                        v = rule(toy_flux(p, rt, his[i]), rw - his[i])
                    else:
                        v = toy_flux(p, rt, rw)
                    h.close1(got[(i * 2 + a) * nw + b], s * v, "flux inside and outside the range", rtol=1e-5, atol=1e-4)
        h.cover("end")

    return fn


def rules(kind):
    """The rules on their own: every time and wavelength, on either side."""

    def fn(h):
        ext, rule = extrapolation(h, kind)
        last = h.real("last", 100.0, 900.0)
        flux, q = h.reals("flux", 2, -10, 10), h.reals("q", 3, 100.0, 2000.0)
        fa, qa = h.arr(flux), h.arr(q)
        out = ext(last, fa, qa)
        h.same(h.shape(out), (2, 3), "times by wavelengths")
        g = h.flat(out)
        for i in range(2):
            for j in range(3):
                h.close1(g[i * 3 + j], rule(flux[i], h.abs(q[j] - last)), "rule", atol=1e-7)
        h.same(h.shape(ext(last, fa, qa[:0])), (2, 0), "no wavelengths")
        for a, b in zip(h.flat(fa) + h.flat(qa), flux + q):
            h.close1(a, b, "inputs untouched")
        h.cover("end")

    return fn


def refused(h):
    from lightcurvelynx.utils import wave_extrapolate as we

    v = h.real("v", -5, 5)
    cls, bad = h.pick("cls", ((we.ConstantExtrapolation, lambda x: x < 0), (we.LinearDecay, lambda x: x <= 0), (we.ExponentialDecay, lambda x: x < 0)))
    h.same(h.raises(lambda: cls(v), ValueError), bool(h.true(bad(v))), "refused exactly when not allowed")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


_e(refused)


def cases(tier):
    out = []
    for k in KINDS:
        out.append(Case(f"model-{k}", _e(model(k, False)), bounds="2 times, 3 wavelengths in any order, limits on either side or none"))
        out.append(Case(f"model-{k}-redshift", _e(model(k, True)), bounds="2 times, 2 wavelengths, limits in the rest frame"))
    for k in ("base",) + KINDS[1:]:
        out.append(Case(f"rule-{k}", _e(rules(k)), bounds="2 times, 3 wavelengths"))
    out.append(Case("refused-settings", refused, bounds="all settings"))
    if tier != "quick":
        for k in KINDS:
            out.append(Case(f"model-{k}-2-samples", _e(model(k, True, 2)), bounds="2 samples with their own limits", tier="thorough", time_limit=500))
    else:
        out.append(Case("model-last-2-samples", _e(model("last", True, 2)), bounds="2 samples with their own limits"))
    return out
