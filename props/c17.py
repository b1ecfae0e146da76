"""Band fluxes of a model: each time with its own filter, each sample with its own parameters."""

import numpy as np

from props.c15 import trap
from props.common import listed, toy_flux, toy_sed_class
from symx.harness import ScriptedRNG
from symx.run import Case

WAVES = {"g": [400.0, 410.0, 420.0], "r": [415.0, 425.0], "i": [500.0, 530.0, 540.0], "F213": [600.0, 640.0]}


def group(h, names="gri", symbolic=True):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    out = []
    for f in names:
        T = h.reals(f"T{f}", len(WAVES[f]), 0.05, 1.0) if symbolic else [0.5 + 0.1 * k for k in range(len(WAVES[f]))]
        out.append(Passband(h.arr([[x, t] for x, t in zip(WAVES[f], T)]), "S", f, delta_wave=None, trim_quantile=None))
    return PassbandGroup(out)


def recorder(log):
    """An effect without effect that records the generator it is given."""
    from lightcurvelynx.effects.effect_model import EffectModel

    class Recorder(EffectModel):
        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
            log.append(rng_info)
            return flux_density

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
            log.append(rng_info)
            return bandfluxes

    return Recorder()


def sed_model(n, nt):
    """The band flux of entry k of sample i is the passband-weighted flux density at time k."""

    def fn(h):
        Toy = toy_sed_class()
        g = group(h)
        log = []
        red = h.pick("redshift", (False, True))
        z, t0 = h.reals("z", n, 0.1, 3.0), h.real("t0_", -10, 10)
        p = [[h.real(f"{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]

        m = Toy(t0=t0, node_label="m", **{k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")}, **({"redshift": listed(h, z)} if red else {}))
        m.add_effect(recorder(log))
        st = m.sample_parameters(num_samples=n)
        t = h.reals("time", nt, -20, 20)
        names = h.pick("filters", (["g", "r", "g", "i"], ["r", "r", "g", "r"], ["S_i", "g", "S_g", "i"], ["r"] * 4))[:nt]
        filters = np.array(names) if h.pick("as", ("array", "list")) == "array" else list(names)
        rng = ScriptedRNG(h, "rng")
        ta = h.arr(t)
        f = m.evaluate_bandfluxes(g, ta, filters, st, rng_info=rng)
        h.same(h.shape(f), (nt,) if n == 1 else (n, nt), "shape")
        h.check(len(log) >= n and all(r is rng for r in log), "the given generator is used")
        got = h.flat(f)
        for i in range(n):
            s = 1 + z[i] if red else 1.0
            for k in range(nt):
                b = g[names[k]]
                phi = h.flat(b.processed_transmission_table[:, 1])
                w = WAVES[b.filter_name]
                tt = t0 + (t[k] - t0) / s if red else t[k]
                want = trap([s * toy_flux(p[i], tt, x / s) * q for x, q in zip(w, phi)], w)
                h.close1(got[i * nt + k], want, "band flux at the entry's own time and filter", rtol=1e-5, atol=1e-3)
        for a, b in zip(h.flat(ta), t):
            h.close1(a, b, "times untouched")
        h.same(list(filters), list(names), "filters untouched")
        h.cover("end")

    return fn


def single_passband(h):
    """One passband: the filter names may be left out; bad requests are refused."""
    Toy = toy_sed_class()
    name = h.pick("name", ("g", "F213"))
    g = group(h, [name])
    p = [h.real(k, -5, 5) for k in "abcd"]
    m = Toy(*p, node_label="m")
    t = h.reals("time", 2, -20, 20)
    filters = h.pick("filters", (None, [name, name], ["S_" + name, name]))
    state = None if h.pick("state", (False, True)) else m.sample_parameters(num_samples=1)
    phi = h.flat(g[name].processed_transmission_table[:, 1])
    f = m.evaluate_bandfluxes(g[name], h.arr(t), filters, state)
    for k in range(2):
        h.close1(h.flat(f)[k], trap([toy_flux(p, t[k], x) * q for x, q in zip(WAVES[name], phi)], WAVES[name]), "band flux", rtol=1e-5, atol=1e-3)
    h.check(h.raises(lambda: m.evaluate_bandfluxes(g, h.arr(t), None, state), ValueError), "a group needs filters")
    h.check(h.raises(lambda: m.evaluate_bandfluxes(g, h.arr(t), [name], state), ValueError), "one filter per time")
    h.check(h.raises(lambda: m.evaluate_bandfluxes(g, h.arr(t), [name, "r"], state), KeyError), "unknown filter")
    h.cover("end")


def flat_source(h):
    """A source of constant flux density has that band flux in every filter, redshifted or not."""
    Toy = toy_sed_class()
    g = group(h)
    a, z = h.real("a", 0.0, 10.0), h.real("z", 0.0, 3.0)
    m = Toy(a, t0=0.0, redshift=z, node_label="m")
    t = h.reals("time", 3, -20, 20)
    f = m.evaluate_bandfluxes(g, h.arr(t), ["g", "r", "i"], m.sample_parameters(num_samples=1))
    for v in h.flat(f):
        h.close1(v, a * (1 + z), "flat spectrum", rtol=1e-5, atol=1e-6)
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (single_passband, flat_source):
    _e(fn)


def cases(tier):
    out = [
        Case("sed-model-1", _e(sed_model(1, 4)), bounds="1 sample, 4 times, 3 passbands"),
        Case("sed-model-2", _e(sed_model(2, 3)), bounds="2 samples, 3 times, 3 passbands"),
        Case("single-passband", single_passband, bounds="2 times"),
        Case("flat-source", flat_source, bounds="3 filters"),
    ]
    if tier != "quick":
        out.append(Case("sed-model-3", _e(sed_model(3, 4)), bounds="3 samples, 4 times, 3 passbands", tier="thorough", time_limit=600))
    return out
