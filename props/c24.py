"""The effects of the library: dimming, white noise, dust extinction and microlensing."""

import numpy as np

from props.common import listed, own_draws, toy_flux, toy_sed_class
from symx.harness import ScriptedRNG
from symx.run import Case


def source(h, n, z=None):
    """A model with its own parameters per sample; also its flux at (sample, time, wavelength) without effects."""
    p = [[h.real(f"{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]
    t0 = h.reals("t0_", n, -10.0, 10.0)
    kw = {} if z is None else dict(redshift=z)
    mod = toy_sed_class()(t0=listed(h, t0), node_label="m", **{k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")}, **kw)

    def rest(i, t, w):
        s = 1.0 + (z or 0.0)
        return toy_flux(p[i], t0[i] + (t - t0[i]) / s, w / s)

    return mod, rest, 1.0 + (z or 0.0)


def bands(h, n):
    from lightcurvelynx.models.physical_model import BandfluxModel

    v = h.reals("v", n, -5, 5)

    class Band(BandfluxModel):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.add_parameter("v", listed(h, v))

        def compute_bandflux(self, times, filters, state, rng_info=None):
            return self.get_local_params(state)["v"] + 1.0 * times + np.array([{"g": 1.0, "r": 2.0}[f] for f in filters])

    return Band(node_label="m"), lambda i, t, f: v[i] + t + {"g": 1.0, "r": 2.0}[f]


def evaluate(h, n, make_effect, factor, noise=None, z=None, rng=None, waves=None):
    """Evaluate a spectral or band flux model with the effect; compare with factor (and noise) on each entry."""
    kind = h.pick("kind", ("sed", "band"))
    t = h.reals("time", 2, -20.0, 20.0)
    if kind == "sed":
        mod, rest, s = source(h, n, z)
        mod.add_effect(make_effect())
        st = mod.sample_parameters(num_samples=n)
        w = h.reals("wave", 2, 100.0, 1000.0) if waves is None else waves
        f = mod.evaluate_sed(h.arr(t), h.arr(w) if waves is None else np.array(waves), st, rng_info=rng)
        h.same(h.shape(f), (2, 2) if n == 1 else (n, 2, 2), "shape")
        cols = w
    else:
        mod, flux = bands(h, n)
        mod.add_effect(make_effect())
        st = mod.sample_parameters(num_samples=n)
        cols = ["r"]
        f = mod.evaluate_bandfluxes(None, h.arr(t), ["r", "g"], st, rng_info=rng)
        h.same(h.shape(f), (2,) if n == 1 else (n, 2), "shape")
    got = h.flat(f)
    k = 0
    for i in range(n):
        for a in range(2):
            for b in range(len(cols)):
                if kind == "sed":
                    want = rest(i, t[a], cols[b]) * s * factor(i, t[a], cols[b])
                else:
                    want = flux(i, t[a], "rg"[a]) * factor(i, t[a], None)
                if noise is not None:
                    want = want + noise(i, k) * s if kind == "sed" else want + noise(i, k)
                h.close1(got[k], want, "the effect on each entry with the sample's parameters", rtol=1e-5, atol=1e-3)
                k += 1
    return mod, st, kind


def dimming(n):
    def fn(h):
        from lightcurvelynx.effects.basic_effects import ConstantDimming

        q = h.reals("q", n, 0.0, 2.0)
        z = h.pick("z", (None, 0.5))
        rest = h.pick("rest", (True, False))
        evaluate(h, n, lambda: ConstantDimming(flux_fraction=listed(h, q), rest_frame=rest), lambda i, t, w: q[i], z=z)
        e = ConstantDimming(flux_fraction=1.0)
        h.check(h.raises(lambda: e.apply(h.arr([1.0])), ValueError) and h.raises(lambda: e.apply_bandflux(h.arr([1.0])), ValueError), "the parameter is needed")
        h.cover("end")

    return fn


def noise(n):
    def fn(h):
        from lightcurvelynx.effects.white_noise import WhiteNoise

        sg = h.reals("s", n, 0.0, 3.0)
        rng = ScriptedRNG(h, "rng")
        z = h.pick("z", (None, 0.5))
        made = len(own_draws(h))

        def term(i, k):
            draws = [v for w, v in rng.log if w == "n"]
            return sg[i] * draws[k] if k < len(draws) else 1e9

        mod, st, kind = evaluate(h, n, lambda: WhiteNoise(white_noise_sigma=listed(h, sg), rest_frame=True), lambda i, t, w: 1.0, term, z=z, rng=rng)
        h.same(len(rng.log), n * (4 if kind == "sed" else 2), "one draw per entry")
        h.same(len(own_draws(h)), made, "no draws from elsewhere")
        e = WhiteNoise(white_noise_sigma=1.0)
        h.check(h.raises(lambda: e.apply(h.arr([1.0])), ValueError) and h.raises(lambda: e.apply_bandflux(h.arr([1.0])), ValueError), "the parameter is needed")
        h.cover("end")

    return fn


class Dust:
    """A stand-in extinction curve: transmits 1 - E(B-V) (0.1 + 1e-4 wavelength)."""

    def extinguish(self, x, Av=None, Ebv=None):  # noqa: N803
        import astropy.units as u

        return 1.0 - Ebv * (0.1 + 1e-4 * x.to_value(u.AA))


def dust(n):
    def fn(h):
        from lightcurvelynx.effects.extinction import ExtinctionEffect

        e = h.reals("e", n, 0.0, 1.0)
        z = h.pick("z", (None, 1.0))
        frame = h.pick("frame", ("rest", "observer"))
        model = h.pick("model", ("own", "library", "named"))
        waves = [3000.0, 8000.0]
        kw = {}
        if model == "own":
            m = Dust()

            def factor(i, t, w):
                return 1.0 - e[i] * (0.1 + 1e-4 * w / (1.0 + (z or 0.0) if frame == "rest" else 1.0))
        else:
            from dust_extinction.parameter_averages import CCM89
            import astropy.units as u

            rv = h.pick("rv", (3.1, 2.5))
            lib = CCM89(Rv=rv)
            m = "CCM89" if model == "named" else lib
            kw = dict(Rv=rv) if model == "named" and rv != 3.1 else {}

            def factor(i, t, w):
                x = w / (1.0 + (z or 0.0) if frame == "rest" else 1.0)
                return h.exp10(-0.4 * float(lib(x * u.AA)) * rv * e[i])

        mod, rest, s = source(h, n, z)
        mod.add_effect(ExtinctionEffect(m, ebv=listed(h, e), frame=frame, **kw))
        st = mod.sample_parameters(num_samples=n)
        t = h.reals("time", 2, -20.0, 20.0)
        got = h.flat(mod.evaluate_sed(h.arr(t), np.array(waves), st))
        for i in range(n):
            for a in range(2):
                for b, w in enumerate(waves):
                    h.close1(got[(i * 2 + a) * 2 + b], rest(i, t[a], w) * s * factor(i, t[a], w), "extinction at the wavelength of its frame", rtol=1e-5, atol=1e-3)
        x = ExtinctionEffect(Dust(), ebv=0.1, frame="rest")
        h.check(h.raises(lambda: ExtinctionEffect(Dust(), ebv=0.1), ValueError), "the frame is needed")
        h.check(h.raises(lambda: ExtinctionEffect("NoSuchLaw", ebv=0.1, frame="rest"), KeyError), "unknown laws are refused")
        h.check(h.raises(lambda: x.apply(h.arr([1.0]), wavelengths=None, ebv=0.1), ValueError) and h.raises(lambda: x.apply(h.arr([1.0]), wavelengths=np.array([4000.0])), ValueError), "wavelengths and E(B-V) are needed")
        h.cover("end")

    return fn


class Lens:
    """A stand-in for the microlensing library: a point source and a point lens."""

    def __init__(self, h):
        self.h = h

    def PSPLLightCurve(self, pr, times):  # noqa: N802
        h = self.h
        out = []
        for t in h.flat(times):
            out.append(magnification(h, h.exp(pr[0]), h.exp(pr[1]), pr[2], t))
        return [out, [0.0] * len(out), [0.0] * len(out)]


def magnification(h, u0, te, t0, t):
    u2 = u0 * u0 + ((t - t0) / te) * ((t - t0) / te)
    return (u2 + 2.0) / h.sqrt(u2 * (u2 + 4.0))


def lensing(n):
    def fn(h):
        from lightcurvelynx.effects.microlensing import Microlensing

        t0, u0, te = h.reals("l", n, -10.0, 10.0), h.reals("u", n, 0.05, 2.0), h.reals("te", n, 1.0, 20.0)
        p = h.pick("probability", (None, 1.0, 0.4, 0.0))
        z = h.pick("z", (None, 1.0))

        def make():
            e = Microlensing(listed(h, t0), listed(h, u0), listed(h, te), **({} if p is None else dict(probability=p)))
            if h.sym:
                e.VBM = Lens(h)
            h.check(not e.rest_frame, "in the frame of the observer")
            return e

        e = make()
        known = dict(apply_microlensing=True, microlensing_t0=t0[0], u_0=u0[0], t_E=te[0])
        for k in ("microlensing_t0", "u_0", "t_E"):
            for kw in ({**known, k: None}, {a: b for a, b in known.items() if a != k}):
                one = h.raises(lambda kw=kw: e.apply(h.arr([1.0]).reshape(1, 1), times=h.arr([0.0]), **kw), ValueError)
                h.check(one and h.raises(lambda kw=kw: e.apply_bandflux(h.arr([1.0]), times=h.arr([0.0]), **kw), ValueError), "every parameter is needed")
        kind = h.pick("kind", ("sed", "band"))
        t = h.reals("time", 2, -20.0, 20.0)
        mod, rest, s = source(h, n, z) if kind == "sed" else (*bands(h, n), 1.0)
        mod.add_effect(make())
        st = mod.sample_parameters(num_samples=n)
        on = mod.get_param(st, "apply_microlensing")
        on = [on] * 1 if n == 1 else list(on)
        w = [400.0, 600.0]
        f = mod.evaluate_sed(h.arr(t), np.array(w), st) if kind == "sed" else mod.evaluate_bandfluxes(None, h.arr(t), ["r", "g"], st)
        got = h.flat(f)
        draws = [e[1] for g in h.own for e in g.log]
        k = 0
        for i in range(n):
            hit = h.true(on[i])
            if p is None or p == 1.0:
                h.check(hit, "always lensed without a probability")
            else:
                h.same(hit, h.true(draws[i] < p), "lensed with the given probability")
            for a in range(2):
                m = magnification(h, u0[i], te[i], t0[i], t[a]) if hit else 1.0
                for b in range(2 if kind == "sed" else 1):
                    base = rest(i, t[a], w[b]) * s if kind == "sed" else rest(i, t[a], "rg"[a])
                    h.close1(got[k], base * m, "one magnification for all wavelengths, at the observer's time", rtol=1e-4, atol=1e-3)
                    k += 1
        h.cover("end")

    return fn


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    ns = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for n in ns:
        b = f"{n} samples, 2 times, 2 wavelengths or filters"
        k = dict(tier="quick" if n < 3 else "thorough", random=True)
        out += [
            Case(f"dimming-{n}", _e(dimming(n)), bounds=b, **k),
            Case(f"noise-{n}", _e(noise(n)), bounds=b, **k),
            Case(f"dust-{n}", _e(dust(n)), bounds=b + " (fixed wavelengths and redshifts)", **k),
            Case(f"lensing-{n}", _e(lensing(n)), bounds=b + " (fixed wavelengths)", **k),
        ]
    return out
