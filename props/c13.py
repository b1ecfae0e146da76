"""From the rest-frame model to the observed flux: order of the effects, frames, samples."""

import numpy as np

from props.common import listed, toy_flux, toy_sed_class
from symx.harness import ScriptedRNG
from symx.run import Case


def affine_effect(name, rest, k, m, log):
    """flux -> k * flux + m * t + w, with k and m parameters of the model."""
    from lightcurvelynx.effects.effect_model import EffectModel

    class Affine(EffectModel):
        def __init__(self):
            super().__init__(rest_frame=rest, effect_name=name)
            self.add_effect_parameter(f"k_{name}", k)
            self.add_effect_parameter(f"m_{name}", m)

        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
            log.append((name, rng_info))
            return kw[f"k_{name}"] * flux_density + kw[f"m_{name}"] * np.asarray(times)[:, None] + np.asarray(wavelengths)[None, :]

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
            log.append((name, rng_info))
            bonus = np.array([{"g": 1.0, "r": 2.0}[f] for f in filters])
            return kw[f"k_{name}"] * bandfluxes + kw[f"m_{name}"] * np.asarray(times) + bonus

    return Affine()


def pipeline(n, nt, nw):
    def fn(h):
        Toy = toy_sed_class()
        log = []
        z, t0 = h.reals("z", n, 0.01, 3.0), h.reals("t0_", n, -10.0, 10.0)
        red = h.pick("redshift", (True, False))
        p = [[h.real(f"{k}{i}", -10, 10) for k in "abcd"] for i in range(n)]
        order = h.pick("order", ((True, False, True), (False, True, False), (True, True, False), (False, False, True)))
        k = [[h.real(f"k{e}_{i}", -2, 2) for i in range(n)] for e in range(3)]
        m = [[h.real(f"m{e}_{i}", -2, 2) for i in range(n)] for e in range(3)]
        mod = Toy(t0=listed(h, t0), node_label="m", **{q: listed(h, [v[j] for v in p]) for j, q in enumerate("abcd")}, **({"redshift": listed(h, z)} if red else {}))
        effs = [affine_effect("xyz"[e], order[e], listed(h, k[e]), listed(h, m[e]), log) for e in range(3)]
        for e in effs:
            mod.add_effect(e)
        h.same([e.effect_name for e in mod.list_effects()], ["xyz"[e] for e in range(3) if order[e]] + ["xyz"[e] for e in range(3) if not order[e]], "effects listed in the order applied")
        st = mod.sample_parameters(num_samples=n)
        rng = ScriptedRNG(h, "rng")
        t, w = h.reals("time", nt, -20, 20), h.reals("wave", nw, 100, 1000)
        ta, wa = h.arr(t), h.arr(w)
        f = mod.evaluate_sed(ta, wa, st, rng_info=rng)
        h.same([(a, b is rng) for a, b in log], [(e.effect_name, True) for e in mod.list_effects()] * n, "every effect once per sample, in order, with the given generator")
        h.same(h.shape(f), (nt, nw) if n == 1 else (n, nt, nw), "shape")
        got = h.flat(f)
        for i in range(n):
            s = 1 + z[i] if red else 1.0
            for a in range(nt):
                for b in range(nw):
                    rt, rw = (t0[i] + (t[a] - t0[i]) / s, w[b] / s) if red else (t[a], w[b])
                    v = toy_flux(p[i], rt, rw)
                    for e in range(3):
                        if order[e]:
                            v = k[e][i] * v + m[e][i] * rt + rw
                    v = v * s
                    for e in range(3):
                        if not order[e]:
                            v = k[e][i] * v + m[e][i] * t[a] + w[b]
                    h.close1(got[(i * nt + a) * nw + b], v, "rest-frame effects, redshift, observer-frame effects", rtol=1e-5, atol=1e-3)
        for a, b in zip(h.flat(ta) + h.flat(wa), t + w):
            h.close1(a, b, "inputs untouched")
        if n > 1:
            for i, one in enumerate(st):
                h.close(mod.evaluate_sed(ta, wa, one, rng_info=rng), f[i], "evaluating the samples one by one", rtol=1e-9)
        h.cover("end")

    return fn


def sharing(h):
    """An effect's parameter that the model already has is not replaced; skip_params leaves the parameters alone."""
    Toy = toy_sed_class()
    log = []
    kk, mm, k2 = h.real("k", -2, 2), h.real("m", -2, 2), h.real("k2", -2, 2)
    p = [h.real(q, -10, 10) for q in "abcd"]
    mod = Toy(*p, node_label="m")
    how = h.pick("how", ("shared", "skip", "two"))
    e = affine_effect("x", True, k2 if how != "skip" else None, mm, log)
    if how == "two":
        mod.add_effect(e)
        mod.add_effect(affine_effect("x", True, kk, kk, log))
        ks = [(k2, mm), (k2, mm)]
    else:
        mod.add_parameter("k_x", kk)
        if how == "skip":
            mod.add_parameter("m_x", mm)
        mod.add_effect(e, skip_params=how == "skip")
        ks = [(kk, mm)]
    t, w = h.real("t", -20, 20), h.real("w", 100, 1000)
    v = toy_flux(p, t, w)
    for a, b in ks:
        v = a * v + b * t + w
    extra = dict(color="red") if h.pick("extra", (False, True)) else {}
    h.close1(h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), **extra))[0], v, "one value of a shared parameter", rtol=1e-5, atol=1e-3)
    h.cover("end")


def bandflux(n):
    """Models of band fluxes: effects in order, per sample, filters with their own times."""

    def fn(h):
        from lightcurvelynx.models.physical_model import BandfluxModel

        class Band(BandfluxModel):
            def __init__(self, a, b, **kw):
                super().__init__(**kw)
                self.add_parameter("a", a)
                self.add_parameter("b", b)

            def compute_bandflux(self, times, filters, state, rng_info=None):
                q = self.get_local_params(state)
                return q["a"] * times + np.where(np.asarray(filters) == "g", 1.0, q["b"])

        log = []
        a, b, z = h.reals("a", n, -5, 5), h.reals("b", n, -5, 5), h.reals("z", n, 0.0, 3.0)
        k = [[h.real(f"k{e}_{i}", -2, 2) for i in range(n)] for e in range(2)]
        m = [[h.real(f"m{e}_{i}", -2, 2) for i in range(n)] for e in range(2)]
        mod = Band(listed(h, a), listed(h, b), redshift=listed(h, z), node_label="m")
        for e in range(2):
            mod.add_effect(affine_effect("xy"[e], h.pick(f"rest{e}", (True, False)), listed(h, k[e]), listed(h, m[e]), log))
        st = mod.sample_parameters(num_samples=n)
        t = h.reals("t", 3, -20, 20)
        filters = h.pick("filters", (["g", "r", "g"], ["r", "r", "r"], np.array(["r", "g", "r"])))
        rng = ScriptedRNG(h, "rng")
        f = mod.evaluate_bandfluxes(_group(), h.arr(t), filters, st, rng_info=rng)
        h.same([(x, y is rng) for x, y in log], [("x", True), ("y", True)] * n, "every effect once per sample, in order")
        h.same(h.shape(f), (3,) if n == 1 else (n, 3), "shape")
        got = h.flat(f)
        for i in range(n):
            for j in range(3):
                v = a[i] * t[j] + (1.0 if filters[j] == "g" else b[i])
                for e in range(2):
                    v = k[e][i] * v + m[e][i] * t[j] + (1.0 if filters[j] == "g" else 2.0)
                h.close1(got[i * 3 + j], v, "band flux with its effects", rtol=1e-5, atol=1e-3)
        h.check(h.raises(lambda: mod.set_apply_redshift(True), NotImplementedError), "no redshift for band fluxes")
        h.check(h.raises(lambda: mod.evaluate_bandfluxes(_group(), h.arr(t), ["g"], st), ValueError), "one filter per time")
        h.check(h.raises(lambda: mod.evaluate_bandfluxes(_group(), h.arr(t), None, st), ValueError), "filters needed")
        h.cover("end")

    return fn


def _group():
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    return PassbandGroup([Passband(np.array([[w, 0.5], [w + 100.0, 0.7], [w + 200.0, 0.4]]), "s", f, trim_quantile=None) for w, f in ((400.0, "g"), (800.0, "r"))])


def forwarded(h):
    """Extra arguments reach the model's own flux in every sample, with and without extrapolation."""
    from lightcurvelynx.utils.wave_extrapolate import ConstantExtrapolation

    log = []
    n = h.pick("n", (1, 2))
    ext = h.pick("ext", (False, True))
    Toy = toy_sed_class(300.0 if ext else None, 800.0 if ext else None, log)
    mod = Toy(h.real("a", -1, 1), wave_extrapolation=ConstantExtrapolation(1.0) if ext else None, node_label="m")
    st = mod.sample_parameters(num_samples=n)
    mod.evaluate_sed(h.arr(h.reals("t", 2, -20, 20)), np.array([200.0, 500.0]), st, flag="on")
    h.same([k for _, _, k in log], [{"flag": "on"}] * n, "arguments forwarded")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (sharing, forwarded):
    _e(fn)


def cases(tier):
    out = [
        Case("pipeline-1", _e(pipeline(1, 2, 2)), bounds="3 effects, 1 sample, 2x2 grid", time_limit=200),
        Case("pipeline-2", _e(pipeline(2, 1, 2)), bounds="3 effects, 2 samples, 1x2 grid", time_limit=200),
        Case("parameter-sharing", sharing, bounds="1-2 effects"),
        Case("bandflux-1", _e(bandflux(1)), bounds="2 effects, 3 times, 2 filters"),
        Case("bandflux-2", _e(bandflux(2)), bounds="2 effects, 2 samples, 3 times, 2 filters"),
        Case("forwarded-arguments", forwarded, warm=False, bounds="1-2 samples"),
    ]
    if tier != "quick":
        out.append(Case("pipeline-3", _e(pipeline(3, 2, 2)), bounds="3 effects, 3 samples, 2x2 grid", tier="thorough", time_limit=600))
    return out
