"""Type Ia supernovae: distance and brightness relations, host dependence, rates, positions and the SALT2 spectrum."""

import os

import numpy as np
from scipy import integrate

from props import c03
from props.c20 import Scratch
from props.common import listed, own_draws
from symx import arrays
from symx import core as c
from symx.harness import ScriptedRNG
from symx.run import Case


class Cosmo:
    """A stand-in cosmology whose distances are simple functions of the redshift."""

    made = []

    def __init__(self, H0=None, Om0=None, **k):  # noqa: N803
        self.args = (float(H0), float(Om0))
        Cosmo.made.append(self)

    def distmod(self, z):
        return Value(self.args[0] / 2.0 + 3.0 * z - self.args[1] * z * z)

    def angular_diameter_distance(self, z):
        return 1000.0 * z + self.args[0]

    def differential_comoving_volume(self, z):
        return Value(1e6 * (1.0 + self.args[1] * z + z * z) / self.args[0])


class Value:
    def __init__(self, v):
        self.value = v

    def __mul__(self, x):
        return Value(self.value * x)

    __rmul__ = __mul__


def tripp(n):
    """The Tripp relation holds for the sampled x0."""

    def fn(h):
        from lightcurvelynx.astro_utils.snia_utils import X0FromDistMod

        names = ("distmod", "x1", "c", "alpha", "beta", "m_abs")
        rng = ((30, 45), (-4, 4), (-0.5, 0.5), (0, 0.3), (2, 4), (-20, -19))
        vals = [h.reals(f"{k}_", n, *r) for k, r in zip(names, rng)]
        nd = X0FromDistMod(**{k: listed(h, v) for k, v in zip(names, vals)}, node_label="x0")
        st = nd.sample_parameters(num_samples=n)
        got = h.flat(nd.get_param(st, "function_node_result"))
        h.same(h.shape(nd.get_param(st, "function_node_result")), () if n == 1 else (n,), "one value per sample")
        for i in range(n):
            m, x1, cc, a, b, ma = [v[i] for v in vals]
            h.check(got[i] > 0, "x0 is positive")
            h.close1(-2.5 * h.log10(got[i]) + 10.635 + a * x1 - b * cc - ma, m, "the Tripp relation gives the distance modulus back", rtol=1e-6, atol=1e-6)
        h.cover("end")

    return fn


def distance(n):
    def fn(h):
        from lightcurvelynx.astro_utils.snia_utils import DistModFromRedshift

        Cosmo.made.clear()
        z = h.reals("z", n, 0.01, 3.0)
        args = h.pick("cosmology", ({}, dict(H0=70.0), dict(H0=68.0, Omega_m=0.25)))
        nd = DistModFromRedshift(listed(h, z), **args, node_label="mu")
        st = nd.sample_parameters(num_samples=n)
        v = nd.get_param(st, "function_node_result")
        h.same(h.shape(v), () if n == 1 else (n,), "one value per sample")
        h0, om = args.get("H0", 73.0), args.get("Omega_m", 0.3)
        if not h.sym:
            from astropy.cosmology import FlatLambdaCDM
        for x, g in zip(z, h.flat(v)):
            want = h0 / 2.0 + 3.0 * x - om * x * x if h.sym else float(FlatLambdaCDM(H0=h0, Om0=om).distmod(x).value)
            h.close1(g, want, "the distance modulus of the sample's redshift in the given cosmology", rtol=1e-6)
        for bad in (dict(H0=nd), dict(Omega_m="x")):
            h.check(h.raises(lambda bad=bad: DistModFromRedshift(0.1, **bad), ValueError), "the cosmology is constant")
        h.cover("end")

    return fn


def hostmass(n):
    """x1 is drawn from the distribution of the sample's own host mass."""

    def fn(h):
        from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func

        m = h.reals("mass", n, 7.0, 13.0)
        f = HostmassX1Func(listed(h, m), node_label="x1")
        rng = ScriptedRNG(h, "rng")
        made = len(own_draws(h))
        st = f.sample_parameters(num_samples=n, rng_info=rng)
        v = f.get_param(st, "function_node_result")
        h.same(h.shape(v), () if n == 1 else (n,), "one value per sample")
        h.same(len(own_draws(h)), made, "only the given generator is used")
        u = [e[1] for e in rng.log]
        h.same(len(u), n, "one draw per sample")
        got = h.flat(v)
        heavy = [h.true(x >= 10.0) for x in m]
        # the stand-in returns the draw plus the mass of the distribution (9 or 11)
        if n == 1:
            h.close1(got[0] - u[0], 11.0 if heavy[0] else 9.0, "the distribution of the host's mass")
        for i in range(n):
            h.check(h.And(got[i] >= (11.0 if heavy[i] else 9.0), got[i] <= (12.0 if heavy[i] else 10.0)), "the distribution of the host's own mass")
        for i in range(n):
            for j in range(i):
                if heavy[i] == heavy[j]:
                    h.check(h.Or(*[h.And(h.abs(got[i] - u[a] - (11.0 if heavy[i] else 9.0)) < 1e-9, h.abs(got[j] - u[b] - (11.0 if heavy[i] else 9.0)) < 1e-9) for a in range(n) for b in range(n) if a != b]), "each sample has its own draw")
        h.cover("end")

    return fn


class Normal:
    @staticmethod
    def pdf(x, loc=0.0, scale=1.0):
        return np.exp(-(((x - loc) / scale) ** 2) / 2.0) / (scale * np.sqrt(2.0 * np.pi))


def density(h):
    """The density of x1: a normal, cut off and skewed for light hosts."""
    from lightcurvelynx.astro_utils.snia_utils import HostmassX1Distr

    m = h.real("mass", 7.0, 13.0)
    x = h.real("x1", -8.0, 8.0)
    h.assume(h.And(h.abs(x) > 1e-6, h.abs(x - 5.0) > 1e-6, h.abs(x + 5.0) > 1e-6))
    d = HostmassX1Distr(m)
    got = h.flat(d.pdf(h.arr([x, 1.0])))
    h.same(len(got), 2, "one value per x1")
    norm = h.exp(-(x * x) / 2.0) / np.sqrt(2.0 * np.pi)
    if h.true(m >= 10.0):
        want = norm
    elif h.true(h.abs(x) > 5.0):
        want = 0.0
    else:
        want = norm if h.true(x > 0) else norm * h.exp(-(x * x))
    h.close1(got[0], want, "the density of the host's mass", rtol=1e-9, atol=1e-12)
    h.check(got[0] >= 0, "a density is not negative")
    h.close1(got[1], float(np.exp(-0.5) / np.sqrt(2.0 * np.pi)), "no change for positive x1", rtol=1e-9)
    h.cover("end")


def rates(h):
    """The number per redshift bin is the integral of rate times volume; the rate grows as (1+z)^1.7."""
    from lightcurvelynx.astro_utils.snia_utils import num_snia_per_redshift_bin, snia_volumetric_rates

    z = h.reals("z", 2, 0.001, 3.0)
    r = h.flat(snia_volumetric_rates(h.arr(z)))
    for a, b in zip(r, z):
        h.close1(h.log10(a), np.log10(2.27e-5) + 1.7 * h.log10(1.0 + b), "the rate as a power of 1 + z", rtol=1e-9, atol=1e-9)
    h.close1(snia_volumetric_rates(0.0), 2.27e-5, "the local rate", rtol=1e-9, atol=0.0)
    area = h.real("area", 0.01, 12.0) if h.pick("area", (False, True)) else None
    lo, hi, n, h0, om = h.pick("bins", ((0.001, 10.0, 20, 73.0, 0.3), (0.1, 0.7, 3, 70.0, 0.25), (0.5, 1.5, 1, 60.0, 0.3)))
    kw = {} if n == 20 else dict(zmin=lo, zmax=hi, znbins=n, H0=h0, Omega_m=om)
    num, mean = num_snia_per_redshift_bin(**kw, **({} if area is None else dict(solid_angle=area)))
    num, mean = h.flat(num), h.flat(mean)
    h.same((len(num), len(mean)), (n, n), "one value per bin")
    if h.sym:
        vol = lambda x: 1e6 * (1.0 + om * x + x * x) / h0  # noqa: E731
    else:
        from astropy.cosmology import FlatLambdaCDM

        vol = lambda x: FlatLambdaCDM(H0=h0, Om0=om).differential_comoving_volume(x).value  # noqa: E731
    edges = np.linspace(lo, hi, n + 1)
    for k in range(n):
        want, _ = integrate.quad(lambda x: 2.27e-5 * (1 + x) ** 1.7 * vol(x), edges[k], edges[k + 1], epsrel=1e-6)
        h.close1(num[k] / want, (4.0 * np.pi if area is None else area) * (h0 / 70.0) ** 3, "the expected number in the bin", rtol=2e-3)
        h.close1(mean[k], (edges[k] + edges[k + 1]) / 2, "the centre of the bin", rtol=1e-9)
    h.cover("end")


def coords(n):
    """The offset from the host is the physical separation at the sample's redshift, in a random direction."""

    def fn(h):
        from lightcurvelynx.astro_utils.snia_utils import SNCoordGivenPhysicalSep

        ra, dec = [10.0, 200.0, 300.0][:n], [-20.0, 45.0, 0.0][:n]
        sep, z = h.reals("sep", n, 1.0, 50.0), [0.1, 0.5, 0.02][:n]
        nd = SNCoordGivenPhysicalSep(listed(h, ra), listed(h, dec), listed(h, sep), listed(h, z), H0=70.0, node_label="sn")
        rng = ScriptedRNG(h, "rng")
        st = nd.sample_parameters(num_samples=n, rng_info=rng)
        a, d = nd.get_param(st, "ra"), nd.get_param(st, "dec")
        shapes = (h.shape(a), h.shape(d))
        u = [e[1] for e in rng.log]
        h.same(len(u), n, "one angle per sample")
        a, d = h.flat(a), h.flat(d)
        for i in range(n):
            if h.sym:
                s = sep[i] / (1000.0 * z[i] + 70.0)
                pa = 2.0 * np.pi * u[i]
                k = 180.0 / np.pi
                h.close1(a[i], ra[i] + k * s * pa, "offset of the sample's own host", rtol=1e-6)
                h.close1(d[i], dec[i] + k * (s * 2.0 + pa * 0.5), "offset of the sample's own host", rtol=1e-6)
            else:
                import astropy.units as un
                from astropy.coordinates import SkyCoord
                from astropy.cosmology import FlatLambdaCDM

                da = FlatLambdaCDM(H0=70.0, Om0=0.3).angular_diameter_distance(z[i]).to_value(un.kpc)
                host, sn = SkyCoord(ra[i] * un.deg, dec[i] * un.deg), SkyCoord(a[i] * un.deg, d[i] * un.deg)
                h.close1(host.separation(sn).rad, sep[i] / da, "offset of the sample's own host", rtol=1e-4)
                h.close1(np.sin(host.position_angle(sn).rad / 2 - np.pi * u[i]), 0.0, "the direction", atol=1e-3)
        h.same(shapes, ((), ()) if n == 1 else ((n,), (n,)), "one position per sample")
        h.cover("end")

    return fn


B, V = 4302.57, 5428.55


def law(k, lo, hi, w):
    """The colour law: a polynomial that is one at V and zero at B, continued by its tangents."""
    full = [1.0 - sum(k)] + list(k)
    s = lambda x: (x - B) / (V - B)  # noqa: E731
    val = lambda x: sum(p * s(x) ** (j + 1) for j, p in enumerate(full))  # noqa: E731
    slope = lambda x: sum(p * (j + 1) * s(x) ** j for j, p in enumerate(full))  # noqa: E731
    if w < lo:
        return -(val(lo) + slope(lo) * (s(w) - s(lo)))
    if w > hi:
        return -(val(hi) + slope(hi) * (s(w) - s(hi)))
    return -val(w)


def colour(h):
    from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw

    n = h.pick("coefficients", (0, 1, 3, 6))
    k = h.reals("k", n, -1.0, 1.0) if n else []
    lo, hi = h.pick("range", ((3000.0, 7000.0), (2800.0, 8000.0), (4000.0, 5000.0)))
    if h.pick("file", (False, True)):
        form = h.pick("labels", ("Salt2ExtinctionLaw.version 1\nSalt2ExtinctionLaw.min_lambda %g\nSalt2ExtinctionLaw.max_lambda %g\n", "max_lambda %g\nmin_lambda %g\n", ""))
        if form == "":
            lo, hi = 3000.0, 7000.0
            meta = ""
        else:
            meta = form % ((lo, hi) if "version" in form else (hi, lo))
        with Scratch() as d:
            p = os.path.join(d, "law.dat")
            with open(p, "w") as f:
                f.write(f"{n}\n" + "".join(f"{0.125 * j - 0.25}\n" for j in range(n)) + meta)
            k = [0.125 * j - 0.25 for j in range(n)]
            cl = SALT2ColorLaw.from_file(p)
            with open(p, "w") as f:
                f.write("0\nSalt2ExtinctionLaw.version 2\n")
            h.check(h.raises(lambda: SALT2ColorLaw.from_file(p), RuntimeError), "other versions are refused")
    else:
        cl = SALT2ColorLaw(lo, hi, h.arr(k) if n else np.array([]))
    ws = [B, 3500.0, 2500.0, V, 9000.0, 4500.0, lo, hi]
    got = h.flat(cl.apply(np.array(ws)))
    h.same(len(got), len(ws), "one value per wavelength")
    for w, g in zip(ws, got):
        h.close1(g, law(k, lo, hi, w), "the colour law", rtol=1e-3, atol=1e-3)
    h.close1(got[0], 0.0, "nothing at B", atol=1e-3) if lo < B < hi else None
    h.close1(got[3], -1.0, "one at V", atol=1e-3) if lo < V < hi else None
    h.cover("end")


class Plane:
    """Bicubic interpolation of a table that is a plane: the plane itself inside, zero outside."""

    def __init__(self, x, y, z):
        self.x, self.y = x, y
        self.p = (z[1][0] - z[0][0]) / (x[1] - x[0]), (z[0][1] - z[0][0]) / (y[1] - y[0])
        self.z0 = z[0][0]

    @classmethod
    def from_grid_file(cls, path, scale_factor=1.0):
        a = np.loadtxt(path)
        x, y = np.unique(a[:, 0]), np.unique(a[:, 1])
        return cls(x, y, (a[:, 2] * scale_factor).reshape(len(x), len(y)))

    def __call__(self, xq, yq):
        out = []
        for u in arrays.wrap(xq).ravel().tolist():
            ok = c.truth(c.s_and(c.s_ge(u, self.x[0]), c.s_le(u, self.x[-1])))
            du = c.s_mul(c.s_sub(u, self.x[0]), float(self.p[0]))
            out.append([c.s_add(c.s_add(float(self.z0), du), float(self.p[1] * (v - self.y[0]))) if ok and self.y[0] <= v <= self.y[-1] else 0.0 for v in np.asarray(yq, dtype=float).ravel()])
        return arrays.wrap(out)


T, W = [-20.0, -10.0, 0.0, 10.0, 20.0, 30.0, 40.0, 50.0], [2500.0, 3500.0, 4500.0, 5500.0, 6500.0, 7500.0]
PLANES = [(3.0, 0.01, 0.0002), (0.5, -0.02, 0.0001)]


def plane(k, t, w):
    a, b, d = PLANES[k]
    return a + b * t + d * w


def salt2(n):
    """The SALT2 spectrum of each sample."""

    def fn(h):
        from lightcurvelynx.models.salt2_jax import SALT2JaxModel

        x0, x1 = h.reals("x0_", n, 0.0, 10.0), h.reals("x1_", n, -3.0, 3.0)
        cc = h.pick("c", ([0.1, -0.2, 0.0], [0.0, 0.3, 0.2]))[:n]
        t0 = h.reals("t0_", n, -10.0, 10.0)
        z = [0.5, 0.25, 1.0][:n] if h.pick("z", (False, True)) else None
        kw = {} if z is None else dict(redshift=listed(h, z))
        k, lo, hi = [-0.5, 0.3, -0.1], 3000.0, 7000.0
        names = h.pick("files", ((), ("a.dat", "b.dat", "c.dat")))
        f0, f1, fc = names or ("salt2_template_0.dat", "salt2_template_1.dat", "salt2_color_correction.dat")
        with Scratch() as d:
            for j, f in enumerate((f0, f1)):
                with open(os.path.join(d, f), "w") as o:
                    o.write("".join(f"{t} {w} {plane(j, t, w)!r}\n" for t in T for w in W))
            with open(os.path.join(d, fc), "w") as o:
                o.write("3\n" + "\n".join(str(x) for x in k) + f"\nmin_lambda {lo}\nmax_lambda {hi}\n")
            mod = SALT2JaxModel(x0=listed(h, x0), x1=listed(h, x1), c=listed(h, cc), t0=listed(h, t0), model_dir=d, node_label="m", **kw, **(dict(zip(("m0_filename", "m1_filename", "cl_filename"), names))))
        st = mod.sample_parameters(num_samples=n)
        t = h.reals("time", 2, -60.0, 110.0)
        w = h.pick("waves", ([4800.0, 2600.0], [7300.0, 5200.0]))
        scales = [1.0 + (z[i] if z else 0.0) for i in range(n)]
        for i in range(n):
            for x in t:
                p = (x - t0[i]) / scales[i]
                for e in (T[0], T[-1], T[1], T[-2]):
                    h.assume(h.abs(p - e) > 1e-3)
                for e in (-20.0, 50.0):
                    h.assume(h.abs(x - t0[i] - e * scales[i]) > 1e-3)
        f = mod.evaluate_sed(h.arr(t), np.array(w), st)
        h.same(h.shape(f), (2, 2) if n == 1 else (n, 2, 2), "shape")
        got = h.flat(f)
        for i in range(n):
            one = st.extract_single_sample(i)
            mask = h.flat(mod.mask_by_time(h.arr(t), one))
            for a in range(2):
                p = (t[a] - t0[i]) / scales[i]
                inside = h.true(h.And(p > T[0], p < T[-1]))
                h.same(h.true(mask[a]), inside, "the mask selects the times of the model")
                for b in range(2):
                    rw = w[b] / scales[i]
                    want = 0.0
                    if inside and W[0] <= rw <= W[-1]:
                        flam = 1e-12 * x0[i] * (plane(0, p, rw) + x1[i] * plane(1, p, rw)) * 10.0 ** (-0.4 * law(k, lo, hi, rw) * cc[i])
                        want = flam * rw**2 / 2.99792458e18 * 1e32 * scales[i]
                    h.close1(got[(i * 2 + a) * 2 + b] / 1e9, want / 1e9, "the SALT2 flux", rtol=1e-3, atol=1e-3)
        h.check(h.raises(lambda: mod.mask_by_time(h.arr(t)), ValueError), "a state is needed")
        h.cover("end")

    return fn


def patches(what):
    def p(symbolic):
        import lightcurvelynx.astro_utils.snia_utils as sn

        if what == "hostmass":
            return [(sn, "NumericalInversePolynomial", c03.FakeInvPoly)] + c03.patches("")(symbolic)[1:2]
        if not symbolic:
            return []
        if what == "salt2":
            import lightcurvelynx.models.salt2_jax as s2

            return [(s2, "BicubicInterpolator", Plane)]
        if what == "coords":
            return [(sn, "SkyCoord", c03.FakeSky), (sn, "u", c03.FakeUnits), (sn, "FlatLambdaCDM", Cosmo)]
        return [(sn, "FlatLambdaCDM", Cosmo), (sn, "norm", Normal)]

    return p


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    out = [
        Case("density", _e(density), bounds="any mass and x1", patches=patches("")),
        Case("rates", _e(rates), bounds="any redshift and area, 3 binnings", patches=patches("")),
        Case("colour-law", _e(colour), bounds="0-6 coefficients of any value (or read from a file), 3 ranges, 8 wavelengths"),
    ]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        k = dict(tier="quick" if n < 3 else "thorough", max_paths=20000)
        b = f"{n} samples"
        out += [
            Case(f"tripp-{n}", _e(tripp(n)), bounds=b, **k),
            Case(f"distance-{n}", _e(distance(n)), bounds=b + ", 3 cosmologies", patches=patches(""), **k),
            Case(f"hostmass-{n}", _e(hostmass(n)), bounds=b, random=True, patches=patches("hostmass"), **k),
            Case(f"coords-{n}", _e(coords(n)), bounds=b + ", fixed hosts", random=True, patches=patches("coords"), **k),
            Case(f"salt2-{n}", _e(salt2(n)), bounds=b + ", 2 times, 2 wavelengths (fixed), planar templates", patches=patches("salt2"), **k),
        ]
    return out
