"""Redshift: observer and rest frames, per sample."""

import numpy as np

from props.common import listed, toy_flux, toy_sed_class
from symx.run import Case


def transforms(h):
    from lightcurvelynx.astro_utils.redshift import obs_to_rest_times_waves, rest_to_obs_flux

    z, t0 = h.real("z", -0.9, 10.0), h.real("t0", -100.0, 100.0)
    t, w = h.reals("time", 3, -1000.0, 1000.0), h.reals("w", 2, 100.0, 30000.0)
    ta, wa = h.arr(t), h.arr(w)
    rt, rw = obs_to_rest_times_waves(ta, wa, z, t0)
    h.same((h.shape(rt), h.shape(rw)), ((3,), (2,)), "shapes kept")
    for v, g in zip(t, h.flat(rt)):
        h.close1((g - t0) * (1 + z), v - t0, "times since t0 are stretched by 1+z", rtol=1e-9, atol=1e-6)
    for v, g in zip(w, h.flat(rw)):
        h.close1(g * (1 + z), v, "wavelengths are stretched by 1+z")
    for a, b in zip(h.flat(ta) + h.flat(wa), t + w):
        h.close1(a, b, "inputs untouched")
    f = h.reals("f", 4)
    g = rest_to_obs_flux(h.arr(f).reshape(2, 2), z)
    h.same(h.shape(g), (2, 2), "flux shape")
    for a, b in zip(h.flat(g), f):
        h.close1(a, b * (1 + z), "flux per frequency grows by 1+z")
    h.cover("end")


def model(n):
    """F_obs(t, w) = (1+z) F_rest(t0 + (t-t0)/(1+z), w/(1+z)), or F_rest without redshift."""

    def fn(h):
        Toy = toy_sed_class()
        mode = h.pick("mode", ("given", "off", "on-again", "none"))
        z, t0 = h.reals("z", n, -0.9, 5.0), h.reals("t0", n, -10.0, 10.0)
        p = [[h.real(f"{k}{i}", -10, 10) for k in "abcd"] for i in range(n)]
        kw = {k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")}
        if mode != "none":
            kw["redshift"] = listed(h, z)
        m = Toy(t0=listed(h, t0), node_label="m", **kw)
        if mode in ("off", "on-again"):
            m.set_apply_redshift(False)
        if mode == "on-again":
            m.set_apply_redshift(True)
        st = m.sample_parameters(num_samples=n)
        t, w = h.reals("time", 2, -20, 20), h.reals("w", 2, 100, 1000)
        f = m.evaluate_sed(h.arr(t), h.arr(w), st)
        h.same(h.shape(f), (2, 2) if n == 1 else (n, 2, 2), "shape")
        got = h.flat(f)
        for i in range(n):
            for j in range(2):
                for k in range(2):
                    if mode in ("off", "none"):
                        want = toy_flux(p[i], t[j], w[k])
                    else:
                        s = 1 + z[i]
                        want = s * toy_flux(p[i], t0[i] + (t[j] - t0[i]) / s, w[k] / s)
                    h.close1(got[(i * 2 + j) * 2 + k], want, "flux in the observer's frame", rtol=1e-5, atol=1e-4)
        h.cover("end")

    return fn


def frames_linked(h):
    """The redshift may come from another object; a missing t0 is refused unless there is no redshift."""
    from lightcurvelynx.models.physical_model import BasePhysicalModel

    Toy = toy_sed_class()
    n = 2
    z = h.reals("z", n, -0.9, 5.0)
    p = [h.real(k, -10, 10) for k in "abcd"]
    host = BasePhysicalModel(redshift=listed(h, z), node_label="host")
    t0 = h.real("t0", -10.0, 10.0)
    m = Toy(*p, t0=t0, redshift=host.redshift, node_label="m")
    st = m.sample_parameters(num_samples=n)
    t, w = h.real("time", -20, 20), h.real("w", 100, 1000)
    f = h.flat(m.evaluate_sed(h.arr([t]), h.arr([w]), st))
    for i in range(n):
        s = 1 + z[i]
        h.close1(f[i], s * toy_flux(p, t0 + (t - t0) / s, w / s), "redshift of the host, sample by sample", rtol=1e-5, atol=1e-4)
    zero = h.pick("zero", (False, True))
    z1 = 0.0 if zero else h.real("zz", 0.1, 5.0)
    m = Toy(*p, redshift=z1, node_label="m")
    if zero:
        h.close1(h.flat(m.evaluate_sed(h.arr([t]), h.arr([w])))[0], toy_flux(p, t, w), "no shift without redshift", atol=1e-4)
    else:
        h.check(h.raises(lambda: m.evaluate_sed(h.arr([t]), h.arr([w])), ValueError), "a redshifted model needs t0")
    h.cover("end")


class Length:
    """Stands for a quantity in megaparsecs, or a bare redshift."""

    __array_ufunc__ = None

    def __init__(self, v, cosmo=None, unit="Mpc"):
        self.v, self.unit = v, unit

    def to(self, unit, eq=None):
        import astropy.units as u

        if self.unit == "redshift":
            if eq is None:
                raise u.UnitConversionError("redshift is no length")
            return eq(self.v).to(unit)
        return Length(self.v * (1e6 * u.pc).to(unit).value, unit=unit)

    def to_value(self, unit, eq=None):
        return self.to(unit, eq).v

    @property
    def value(self):
        return self.v


class RedshiftUnit:
    __array_ufunc__ = None

    def __rmul__(self, v):
        return Length(v, unit="redshift")

    __rlshift__ = __rmul__


class Units:
    """Stands for astropy's units of cosmology."""

    redshift = RedshiftUnit()

    @staticmethod
    def redshift_distance(cosmology=None, kind="comoving", **k):
        return getattr(cosmology, f"{kind}_distance")


class Cosmo:
    """A stand-in for a cosmology with a distance that is a polynomial of the redshift."""

    def __init__(self, k):
        self.k = k

    def luminosity_distance(self, z):
        return Length(z * (1 + z) * self.k)

    def comoving_distance(self, z):
        return Length(z * self.k)

    comoving_transverse_distance = comoving_distance

    def angular_diameter_distance(self, z):
        return Length(z * self.k / (1 + z))

    lookback_distance = angular_diameter_distance


def cosmology(h, k):
    """A cosmology, and its luminosity distances in parsecs."""
    if h.sym:
        return Cosmo(k), lambda z: z * (1 + z) * k * 1e6
    from astropy.cosmology import FlatLambdaCDM

    real = FlatLambdaCDM(H0=60.0 + 2.0 * k, Om0=0.3)
    return real, lambda z: real.luminosity_distance(float(z)).to_value("pc")


def dist_patches(symbolic):
    from lightcurvelynx.astro_utils import redshift as r

    return [(r, "cu", Units)] if symbolic else []


def distance(h):
    """The distance follows each sample's own redshift and the given cosmology, or is the given one."""
    from lightcurvelynx.models.physical_model import BasePhysicalModel

    n = h.pick("n", (1, 2))
    z, k = h.reals("z", n, 0.0, 5.0), h.real("k", 1.0, 10.0)
    d = h.real("d", 0.1, 100.0)
    cosmo, dist = cosmology(h, k)
    kw = {"given": dict(distance=d, cosmology=cosmo), "derived": dict(cosmology=cosmo), "none": {}}[h.pick("mode", ("given", "derived", "none"))]
    m = BasePhysicalModel(redshift=listed(h, z), node_label="m", **kw)
    st = m.sample_parameters(num_samples=n)
    got = m.get_param(st, "distance")
    if not kw:
        h.check(all(v is None for v in h.flat(got)), "unknown distance")
    elif "distance" in kw:
        for g in h.flat(got):
            h.close1(g, d, "given distance")
    else:
        h.same(h.shape(got), () if n == 1 else (n,), "one distance per sample")
        for g, v in zip(h.flat(got), z):
            h.close1(g, dist(v), "luminosity distance of the sample's redshift, in parsecs", rtol=1e-6)
    h.cover("end")


for fn in (transforms, frames_linked, distance):
    fn.must_cover = ("end",)


def _m(n):
    f = model(n)
    f.must_cover = ("end",)
    return f


def cases(tier):
    out = [
        Case("frame-transforms", transforms, bounds="3 times, 2 wavelengths, z in [-0.9,10]"),
        Case("model-1", _m(1), bounds="1 sample, 2x2 grid"),
        Case("model-2", _m(2), bounds="2 samples, 2x2 grid"),
        Case("linked-frames", frames_linked, bounds="2 samples"),
        Case("distance", distance, bounds="1-2 samples; the cosmology is a stand-in", patches=dist_patches),
    ]
    if tier != "quick":
        out.append(Case("model-3", _m(3), bounds="3 samples, 2x2 grid", tier="thorough"))
    return out
