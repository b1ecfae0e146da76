"""Wrappers of other packages: sncosmo sources, flows of pzflow, redback models, bilby priors and synphot spectra."""

import numpy as np

from props.c25 import run
from props.common import listed
from symx import arrays
from symx.run import Case

C_A = 2.99792458e18
LO, HI = 300.0, 800.0


def flam(p, t, w):
    return 1e-12 * (p[0] + p[1] * t + 0.01 * w)


def njy(f, w):
    return f * w * w / C_A * 1e32


class Source:
    """A source of sncosmo: parameters that are set and a flux density per wavelength."""

    param_names = ["amp", "slope"]

    def __init__(self):
        self.values = {"amp": 1.0, "slope": 0.0}
        self.asked = []

    @property
    def parameters(self):
        return [self.values[k] for k in self.param_names]

    def set(self, **kw):
        for k, v in kw.items():
            if k not in self.values:
                raise KeyError(k)
            self.values[k] = v

    def get(self, name):
        return self.values[name]

    def minwave(self):
        return LO

    def maxwave(self):
        return HI

    def minphase(self):
        return -4.0

    def maxphase(self):
        return 6.0

    def flux(self, phase, wave):
        if np.any(wave < LO) or np.any(wave > HI):
            raise ValueError("outside of the range of the source")
        return flam((self.values["amp"], self.values["slope"]), phase[:, None], wave[None, :])


def waves(h, m, s, lo=LO, hi=HI):
    w = h.reals("wave", m, 150.0, 2000.0)
    for x in w:
        for b in (lo, hi):
            h.assume(h.abs(x / s - b) > 1e-3)
    return w


def expected(h, extra, lo, hi, f, w):
    """The flux density, and beyond the wavelengths of the source nothing or the last value."""
    if h.true(w < lo):
        return njy(f(lo), lo) if extra else 0.0
    if h.true(w > hi):
        return njy(f(hi), hi) if extra else 0.0
    return njy(f(w), w)


def beyond(h):
    from lightcurvelynx.utils.wave_extrapolate import LastValueExtrapolation

    extra = h.pick("extrapolate", (False, True))
    return extra, (dict(wave_extrapolation=LastValueExtrapolation()) if extra else {})


def sncosmo(n):
    """Every sample has its own parameters, reference time and redshift."""

    def fn(h):
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        a, b, t0 = h.reals("a", n, 10.0, 20.0), h.reals("b", n, -1.0, 1.0), h.reals("zero", n, -10.0, 10.0)
        z = [0.25, 1.0, 0.5][:n] if h.pick("redshifted", (False, True)) else None
        s = [1.0 + x for x in z] if z else [1.0] * n
        kw = dict(redshift=listed(h, z)) if z else {}
        extra, ex = beyond(h)
        with_slope = h.pick("slope", (True, False))
        if with_slope:
            kw["slope"] = listed(h, b)
        mod = SncosmoWrapperModel("toy", amp=listed(h, a), mood=5.0, t0=listed(h, t0), node_label="m", **kw, **ex)
        h.same(tuple(mod.param_names), ("amp", "slope"), "the parameters of the source")
        h.check(mod.minwave() == LO and mod.maxwave() == HI, "the wavelengths of the source")
        t = h.reals("time", 2, -5.0, 5.0)
        w = waves(h, 1, s[0])
        for x in w:
            for k in s:
                h.assume(h.And(h.abs(x / k - LO) > 1e-3, h.abs(x / k - HI) > 1e-3))
        st, got = run(h, mod, n, t, w)
        for i in range(n):
            h.close1(h.flat(mod.get_param(st, "mood"))[i], 5.0, "other parameters belong to the model only")
            for j, x in enumerate(t):
                rt = (x - t0[i]) / s[i]
                f = lambda y: flam((a[i], b[i] if with_slope else 0.0), rt, y)  # noqa: E731, B023
                h.close1(got(i, j, 0), expected(h, extra, LO, HI, f, w[0] / s[i]) * s[i], "the flux of the source with the sample's parameters", rtol=1e-5, atol=1e-3)
        h.cover("end")

    return fn


def setting(h):
    """Parameters can be set, before or after a first sample, and are used from then on."""
    from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

    a, b, c = h.real("a", 10.0, 20.0), h.real("b", -1.0, 1.0), h.real("c", 10.0, 20.0)
    mod = SncosmoWrapperModel("toy", amp=a, t0=1.0, node_label="m")
    if h.pick("sampled", (False, True)):
        mod.sample_parameters()
        h.close1(mod.get("amp"), a, "a sample sets the source")
    mod.set(**({"slope": b} if h.pick("new", (True, False)) else {"amp": c}))
    new = "slope" in mod.source_param_names
    h.close1(mod.get("slope" if new else "amp"), b if new else c, "the value set")
    h.close1(h.flat(mod.parameter_values)[1 if new else 0], b if new else c, "the value set")
    st = mod.sample_parameters()
    t, w = h.real("time", -5.0, 5.0), h.real("wave", LO + 1, HI - 1)
    f = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), st))[0]
    h.close1(f, njy(flam((a, b) if new else (c, 0.0), t - 1.0, w), w), "the flux with the value set", rtol=1e-5, atol=1e-3)
    h.cover("end")


def window(h):
    """Which times a source covers: those strictly inside of its phases, stretched by the redshift."""
    from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

    t0, z = h.real("zero", -10.0, 10.0), h.real("z", 0.0, 3.0)
    kind = h.pick("given", ("both", "no redshift", "nothing"))
    kw = {"both": dict(t0=t0, redshift=z), "no redshift": dict(t0=t0), "nothing": {}}[kind]
    if kind != "both":
        z = 0.0
    if kind == "nothing":
        t0 = 0.0
    mod = SncosmoWrapperModel("toy", amp=1.0, node_label="m", **kw)
    st = mod.sample_parameters()
    t = h.reals("time", 2, -40.0, 40.0)
    for x in t:
        h.assume(h.And(h.abs(x - t0 + 4.0 * (1.0 + z)) > 1e-6, h.abs(x - t0 - 6.0 * (1.0 + z)) > 1e-6))
    m = h.flat(mod.mask_by_time(h.arr(t), st))
    for x, y in zip(t, m):
        h.same(h.true(y), h.true(h.And(x > t0 - 4.0 * (1.0 + z), x < t0 + 6.0 * (1.0 + z))), "times within the phases of the source")
    h.check(h.raises(lambda: mod.mask_by_time(h.arr(t)), ValueError), "a state is needed")
    h.cover("end")


class Result:
    """What a model of redback returns: a time series over a range of wavelengths that depends on its parameters."""

    def __init__(self, amp, slope, lo):
        self.p, self.lo = (amp, slope), lo

    def minwave(self):
        return self.lo

    def maxwave(self):
        return HI

    def get_flux_density(self, times, wave):
        if np.any(wave < self.lo) or np.any(wave > HI):
            raise ValueError("outside of the range of the source")
        return flam(self.p, times[:, None], wave[None, :])


def redback(n):
    def fn(h):
        from lightcurvelynx.models.redback_models import RedbackWrapperModel

        calls = []

        def toy(times, amp, slope, redshift=0.0, lo=0.0, output_format=None, **kw):
            calls.append((h.flat(times), output_format, kw))
            return Result(amp, slope, lo)

        toy.citation = "nobody"
        a, b, t0 = h.reals("a", n, 10.0, 20.0), h.reals("b", n, -1.0, 1.0), h.reals("zero", n, -10.0, 10.0)
        lo = [LO, 250.0, 280.0][:n]
        extra, ex = beyond(h)
        params = dict(amp=listed(h, a), slope=listed(h, b), lo=listed(h, lo))
        before = dict(params)
        if h.pick("redshifted", (False, True)):
            params["redshift"] = 0.5
        no_t0 = h.pick("t0", ("given", "none")) == "none"
        if no_t0:
            t0 = [0.0] * n
        mod = RedbackWrapperModel(toy, parameters=params, node_label="m", **({} if no_t0 else dict(t0=listed(h, t0))), **ex)
        h.check(set(mod.param_names) == set(params) and all(params[k] is before[k] for k in before), "the parameters given, unchanged")
        t = h.reals("time", 2, -5.0, 5.0)
        w = waves(h, 2, 1.0)
        for x in w:
            for k in lo:
                h.assume(h.abs(x - k) > 1e-3)
        _, got = run(h, mod, n, t, w)
        for i in range(n):
            for j, x in enumerate(t):
                f = lambda y: flam((a[i], b[i]), x - t0[i], y)  # noqa: E731, B023
                for k, y in enumerate(w):
                    h.close1(got(i, j, k), expected(h, extra, lo[i], HI, f, y), "the flux of the model, which redshifts itself", rtol=1e-5, atol=1e-3)
        h.check(all(c[1] == "sncosmo_source" and not c[2] for c in calls), "only the parameters of the model are passed on")
        h.cover("end")

    return fn


def redback_params(h):
    """Priors fill the parameters that are not given; a parameter given twice is refused."""
    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode
    from lightcurvelynx.models.redback_models import RedbackWrapperModel

    def toy(times, amp, slope, output_format=None):
        return Result(amp, slope, 0.0)

    p = {k: h.reals(f"{k}_", 2, 10.0, 20.0) for k in ("amp", "slope")}
    prior = BilbyPriorNode(prior=a_prior(h, p), node_label="prior")
    a = h.reals("a", 2, 1.0, 2.0)
    given = h.pick("given", ((), ("amp",), ("amp", "slope")))
    mod = RedbackWrapperModel(toy, priors=prior, parameters={k: listed(h, a) for k in given}, t0=0.0, node_label="m")
    st = mod.sample_parameters(num_samples=2)
    for k in ("amp", "slope"):
        for i, v in enumerate(h.flat(mod.get_param(st, k))):
            h.close1(v, a[i] if k in given else p[k][i], "a given value is preferred to the prior")
    t, w = h.real("time", -5.0, 5.0), h.real("wave", LO + 1, HI - 1)
    f = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), st))
    for i in range(2):
        v = [a[i] if k in given else p[k][i] for k in ("amp", "slope")]
        h.close1(f[i], njy(flam(v, t, w), w), "the flux with these values", rtol=1e-5, atol=1e-3)
    h.check(h.raises(lambda: RedbackWrapperModel(toy, parameters={"t0": 1.0}, t0=2.0, node_label="x"), ValueError), "a parameter given twice is refused")
    h.cover("end")


def a_prior(h, values, limits=()):
    """A prior of bilby whose draws are known: one per parameter and sample, made together."""
    from bilby.core.prior import Constraint, PriorDict, Uniform

    class Prior(PriorDict):
        def sample(self, size=None):
            self.asked.append(size)
            return {k: h.arr(v[:size]) for k, v in self.vals.items()}

    p = Prior({k: Uniform(0, 1, k) for k in values} | {k: Constraint(0, 1) for k in limits})
    p.vals, p.asked = values, []
    return p


def bilby(n):
    """Draws of several parameters belong together; each ends up under its own name."""

    def fn(h):
        from lightcurvelynx.base_models import FunctionNode
        from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode

        names = ("x", "y") if h.pick("two", (True, False)) else ("x",)
        v = {k: h.reals(k, n, -5.0, 5.0) for k in names}
        prior = a_prior(h, v, ("limit",) if h.pick("constrained", (True, False)) else ())
        nd = BilbyPriorNode(prior=prior, node_label="prior")
        use = FunctionNode(lambda p, q: p + 2.0 * q, p=nd.x, q=nd.y if len(names) == 2 else 1.0, node_label="sum")
        st = use.sample_parameters(num_samples=n)
        h.same(prior.asked, [n], "one joint draw for all parameters")
        for k in names:
            got = nd.get_param(st, k)
            h.same(h.shape(got), () if n == 1 else (n,), "a value per sample")
            for i, g in enumerate(h.flat(got)):
                h.close1(g, v[k][i], "the draws of this parameter")
        for i, g in enumerate(h.flat(use.get_param(st, "function_node_result"))):
            h.close1(g, v["x"][i] + 2.0 * (v["y"][i] if len(names) == 2 else 1.0), "draws of one sample are used together")
        h.check(h.raises(lambda: BilbyPriorNode(prior={}), ValueError), "an empty prior is refused")
        h.cover("end")

    return fn


class Spectrum:
    """A spectrum of synphot, in photons per second, area and wavelength."""

    z = 0.0

    def __init__(self, f, own):
        self.f, self.own = f, own

    @property
    def waveset(self):
        import astropy.units as u

        return np.array(self.own) * u.AA

    def __call__(self, waves, flux_unit=None):
        assert str(flux_unit) == "PHOTLAM"
        v = [self.f(x) for x in np.asarray(waves).tolist()]
        return v


def synphot(h):
    """A spectrum of synphot as a static model: energy instead of photons, on the wavelengths asked for."""
    from lightcurvelynx.models.static_sed_model import StaticSEDModel

    own, ask = [300.0, 500.0, 900.0], [400.0, 450.0, 800.0]
    grid = h.pick("waves", (None, tuple(ask)))
    p = h.reals("p", 2, 1.0, 10.0)
    f = lambda x: 1e-3 * (p[0] + p[1] * x)  # noqa: E731
    ws = own if grid is None else ask
    z = h.pick("redshift", (None, 1.0))
    s = 1.0 + (z or 0.0)
    mod = StaticSEDModel.from_synphot(Spectrum(f, own), **({} if grid is None else dict(waves=np.array(ask))), node_label="m", **({} if z is None else dict(redshift=z, t0=0.0)))
    st = mod.sample_parameters()
    h.check(mod.minwave(st) == ws[0] and mod.maxwave(st) == ws[-1], "the wavelengths of the table")
    w = [x * s for x in ws] + [(ws[0] + ws[1]) / 2 * s, (ws[-1] + 20.0) * s]
    got = h.flat(mod.evaluate_sed(np.array([1.0]), np.array(w), st))
    # photons to energy: h c / lambda
    k = lambda x: f(x) * 6.62607015e-27 * C_A / x * x * x / C_A * 1e32  # noqa: E731
    want = [k(x) for x in ws]
    want += [(want[0] + want[1]) / 2, 0.0]
    for g, v in zip(got, want):
        h.close1(g, v * s, "the energy of the photons at that wavelength", rtol=1e-4, atol=1e-3)
    bad = Spectrum(f, own)
    bad.z = 0.5
    h.check(h.raises(lambda: StaticSEDModel.from_synphot(bad), ValueError), "a redshifted spectrum is refused")
    h.cover("end")


def convert(waves, flux, out):
    """synphot's conversion from photons to nJy."""
    assert str(out) == "nJy"
    w = np.asarray(waves, dtype=float).tolist()
    return arrays.wrap([f * (6.62607015e-27 * x * 1e32) for f, x in zip(flux, w)])


def patches(what):
    def p(symbolic):
        if what == "sncosmo":
            import sncosmo.models as sm

            return [(sm, "get_source", lambda name: Source())]
        if what == "synphot":
            import synphot.units as su

            return [(su, "convert_flux", convert)] if symbolic else []
        return []

    return p


class Flow:
    """A flow of pzflow: rows of draws, shifted by the conditions of their row."""

    def __init__(self, h, columns, conditions, draws):
        self.h, self.data_columns, self.conditional_columns, self.draws, self.asked = h, columns, conditions, draws, []

    def sample(self, nsamples=1, conditions=None, save_conditions=True, seed=None):
        import pandas as pd

        rows = nsamples if conditions is None else nsamples * len(conditions)
        self.asked.append((rows, seed))
        if bool(self.conditional_columns) != (conditions is not None) or rows > len(self.draws[self.data_columns[0]]):
            raise ValueError("conditions")
        out = {}
        extra = [0.0] * rows
        for k, col in enumerate(self.conditional_columns or ()):
            extra = [e + 10.0**k * conditions[col].iloc[i // nsamples] for i, e in enumerate(extra)]
        for j, col in enumerate(self.data_columns):
            out[col] = [v + (j + 1) * e for v, e in zip(self.draws[col], extra)]
        for col in (self.conditional_columns or ()) if save_conditions else ():
            out[col] = [conditions[col].iloc[i // nsamples] for i in range(rows)]
        return pd.DataFrame(out, dtype=object if self.h.sym else float)


def pzflow(n):
    """Every sample is a row of the flow, drawn given that sample's own conditions."""

    def fn(h):
        import sys
        import types

        from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode
        from lightcurvelynx.base_models import FunctionNode

        columns = h.pick("columns", (["x"], ["x", "y"], ["y", "z", "x"]))
        conditions = h.pick("conditions", (None, [], ["w"], ["v", "w"]))
        draws = {k: h.reals(k, n, -5.0, 5.0) for k in columns}
        w, v = h.reals("w", n, -5.0, 5.0), h.real("v", -5.0, 5.0)
        flow = Flow(h, columns, conditions, draws)
        kw = {"w": listed(h, w), "v": v}
        kw = {k: kw[k] for k in reversed(conditions or ())}
        if h.pick("file", (False, True)):
            asked = []
            keep = sys.modules.get("pzflow")
            sys.modules["pzflow"] = types.SimpleNamespace(Flow=lambda file=None, **k: asked.append(file) or flow)
            try:
                nd = PZFlowNode.from_file("flow.pkl", node_label="flow", **kw)
            finally:
                sys.modules.pop("pzflow")
                if keep is not None:
                    sys.modules["pzflow"] = keep
            h.same(asked, ["flow.pkl"], "the flow of the file")
        else:
            nd = PZFlowNode(flow, node_label="flow", **kw)
        for k in kw:
            h.check(h.raises(lambda k=k: PZFlowNode(flow, **{a: b for a, b in kw.items() if a != k}), ValueError), "every condition has to be given")
        use = FunctionNode(lambda p, q: p - 3.0 * q, p=nd.x, q=getattr(nd, columns[0]), node_label="use")
        st = use.sample_parameters(num_samples=n)
        h.same([a[0] for a in flow.asked], [n], "one joint draw for all columns")
        want = {}
        for j, k in enumerate(columns):
            got = nd.get_param(st, k)
            h.same(h.shape(got), () if n == 1 else (n,), "a value per sample")
            e = [sum(10.0**m * (w[i] if c == "w" else v) for m, c in enumerate(conditions or ())) for i in range(n)]
            want[k] = [draws[k][i] + (j + 1) * e[i] for i in range(n)]
            for g, x in zip(h.flat(got), want[k], strict=True):
                h.close1(g, x, "the column of the sample's own row and conditions", rtol=1e-6, atol=1e-6)
        for i, g in enumerate(h.flat(use.get_param(st, "function_node_result"))):
            h.close1(g, want["x"][i] - 3.0 * want[columns[0]][i], "columns of one row are used together", rtol=1e-6, atol=1e-5)
        h.cover("end")

    return fn


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    out = [
        Case("setting", _e(setting), bounds="any values", patches=patches("sncosmo")),
        Case("window", _e(window), bounds="any times, reference time and redshift", patches=patches("sncosmo")),
        Case("redback-params", _e(redback_params), bounds="2 samples, 2 parameters"),
        Case("synphot", _e(synphot), bounds="any spectrum, fixed wavelengths", patches=patches("synphot")),
    ]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        k = dict(tier="quick" if n < 3 else "thorough", max_paths=20000)
        b = f"{n} samples"
        out += [
            Case(f"sncosmo-{n}", _e(sncosmo(n)), bounds=b + ", 2 times, 1 wavelength of any value", patches=patches("sncosmo"), **k),
            Case(f"redback-{n}", _e(redback(n)), bounds=b + ", 2 times, 2 wavelengths of any value", **k),
            Case(f"pzflow-{n}", _e(pzflow(n)), bounds=b + ", 1 to 3 columns, up to 2 conditions", **k),
            Case(f"bilby-{n}", _e(bilby(n)), bounds=b + ", 1 or 2 parameters", **k),
        ]
    return out
