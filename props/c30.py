"""The BayeSN model: splines through its tables, dust, amplitude and the frames of times and wavelengths."""

import numpy as np

from props.c25 import run
from props.c28 import njy
from props.common import listed
from symx.run import Case

DATA = {}
PHASES, WAVES = [-5.0, 0.0, 3.0, 10.0], [2000.0, 4000.0, 5000.0, 9000.0]
TAU, L = [-10.0, 0.0, 4.0, 20.0], [1500.0, 4000.0, 6000.0, 7000.0, 10000.0]


def loadtxt(name, *a, **k):
    return DATA[getattr(name, "name", str(name))]


class File:
    """An open file of the spectral template."""

    def __init__(self, name, mode="r"):
        pass

    def __enter__(self):
        return {"default": {k: _Set(DATA[k]) for k in ("phase", "wave", "flux")}}

    def __exit__(self, *a):
        return False


class _Set:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return self.v if k == () else self.v[k]


class H5:
    File = File


def patches(symbolic):
    from lightcurvelynx.models import bayesn

    return [(bayesn, "h5py", H5), (np, "loadtxt", loadtxt)]


class Clear:
    """An extinction law for wavelengths that are not numbers yet (used without dust only)."""

    def __init__(self, Rv=3.1):  # noqa: N803
        pass

    def extinguish(self, x, Av=None, Ebv=None):  # noqa: N803
        return 1.0 - 0.0 * Ebv


def clear(symbolic):
    import dust_extinction.parameter_averages as pa

    return patches(symbolic) + ([(pa, "F99", Clear)] if symbolic else [])


def basis(x, q):
    """Weights of the values at knots x in their natural cubic spline at q (a number)."""
    from scipy.interpolate import CubicSpline

    return [float(v) for v in CubicSpline(np.array(x), np.eye(len(x)), bc_type="natural")(q)]


def poly(x, k):
    """The weights as polynomials of q - x[k] in the interval k: coefficients by power, highest first."""
    from scipy.interpolate import CubicSpline

    return CubicSpline(np.array(x), np.eye(len(x)), bc_type="natural").c[:, k, :].tolist()


def spline(h, x, k, vals, s):
    """The spline at x[k] + s."""
    c = poly(x, k)
    return sum(v * (((c[0][i] * s + c[1][i]) * s + c[2][i]) * s + c[3][i]) for i, v in enumerate(vals))


def model(h, flux, w0=None, w1=None, **kw):
    from pathlib import Path

    from lightcurvelynx.models.bayesn import BayesnModel

    zero = [[0.0] * len(TAU) for _ in L]
    tab = lambda v: np.array(v) if not h.sym else h.arr(v)  # noqa: E731
    DATA.update({"W0.txt": tab(w0 or zero), "W1.txt": tab(w1 or zero), "l_knots.txt": np.array(L), "tau_knots.txt": np.array(TAU)})
    DATA.update({"phase": np.array(PHASES), "wave": np.array(WAVES), "flux": tab(flux)})
    return BayesnModel(_M20_model_path=Path("/nowhere"), hsiao_model_path="/nowhere/h.h5", node_label="m", **{**dict(theta=0.0, Av=0.0, Rv=3.1, Amplitude=1.0), **kw})


def table(h, name, n, m, lo, hi):
    v = h.reals(name, n * m, lo, hi)
    return [v[i * m : (i + 1) * m] for i in range(n)]


SCALE = 1e-12


def template(axis):
    """Along a phase, or a wavelength, of the template the flux is the natural cubic spline of the table."""

    def fn(h):
        z = table(h, "f", 4, 4, 1.0, 10.0)
        mod = model(h, [[SCALE * v for v in r] for r in z], t0=0.0)
        st = mod.sample_parameters()
        a, k = h.pick("knot", (0, 1, 2, 3)), h.pick("interval", (0, 1, 2))
        x = WAVES if axis == "wave" else PHASES
        u = h.real("u", 0.0, 1.0)
        if k > 0:
            h.assume(u > 0)  # the knot itself ends the interval before
        q = x[k] + u * (x[k + 1] - x[k])
        vals = z[a] if axis == "wave" else [r[a] for r in z]
        t, w = (PHASES[a], q) if axis == "wave" else (q, WAVES[a])
        got = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), st))[0]
        h.close1(got, njy(SCALE * spline(h, x, k, vals, q - x[k]), w), "the natural cubic spline through the table", rtol=1e-5, atol=3000.0)
        h.cover("end")

    return fn


def smooth(h):
    """The flux does not jump from one phase of the table to the next interval."""
    z = table(h, "f", 4, 4, 1.0, 10.0)
    mod = model(h, [[SCALE * v for v in r] for r in z], t0=0.0)
    st = mod.sample_parameters()
    a = h.pick("knot", (1, 2))
    w = h.pick("wave", (2500.0, 4400.0, 7000.0))
    got = h.flat(mod.evaluate_sed(np.array([PHASES[a] - 1e-7, PHASES[a], PHASES[a] + 1e-7]), np.array([w]), st))
    for g in (got[0], got[2]):
        h.close1(g / njy(SCALE, w), got[1] / njy(SCALE, w), "no jump at a phase of the table", rtol=1e-4, atol=1e-4)
    h.cover("end")


def warp(n):
    """The shape of each sample: its theta weighs the second table, whose spline dims the template in magnitudes."""

    def fn(h):
        w0, w1 = table(h, "w0_", len(L), len(TAU), -1.0, 1.0), table(h, "w1_", len(L), len(TAU), -1.0, 1.0)
        th = h.reals("theta", n, -2.0, 2.0)
        f = h.real("f", 1.0, 10.0)
        z, t0 = [1.0, 0.25, 0.5][:n], [1.0, -2.0, 0.5][:n]
        mod = model(h, [[SCALE * f] * 4 for _ in range(4)], w0, w1, theta=listed(h, th), redshift=listed(h, z), t0=listed(h, t0))
        t = [-3.0, 7.5]
        w = [4100.0, 8000.0]
        _, got = run(h, mod, n, t, w)
        for i in range(n):
            s = 1.0 + z[i]
            for j, x in enumerate(t):
                bt = basis(TAU, (x - t0[i]) / s)
                for k, y in enumerate(w):
                    bl = basis(L, y / s)
                    mag = sum(p * q * (w0[a][b] + th[i] * w1[a][b]) for a, p in enumerate(bl) for b, q in enumerate(bt))
                    h.close1(got(i, j, k), njy(SCALE * f, y / s) * s * h.exp10(-0.4 * mag), "the template dimmed by the sample's shape", rtol=1e-5, atol=1e-2)
        h.cover("end")

    return fn


def between(axis):
    """The shape at any time, or any wavelength, between the knots."""

    def fn(h):
        w0 = table(h, "w0_", len(L), len(TAU), -1.0, 1.0)
        x = L if axis == "wave" else TAU
        k = h.pick("interval", tuple(range(len(x) - 1)))
        u = h.real("u", 0.0, 1.0)
        if k > 0:
            h.assume(u > 0)  # the knot itself ends the interval before
        q = x[k] + u * (x[k + 1] - x[k])
        a = h.pick("knot", (0, 2))
        mod = model(h, [[SCALE] * 4 for _ in range(4)], w0, t0=0.0)
        st = mod.sample_parameters()
        t, w = (TAU[a], q) if axis == "wave" else (q, L[a])
        vals = [r[a] for r in w0] if axis == "wave" else w0[a]
        got = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), st))[0]
        h.close1(got, njy(SCALE, w) * h.exp10(-0.4 * spline(h, x, k, vals, q - x[k])), "the natural cubic spline of the shape", rtol=1e-5, atol=1e-3)
        h.cover("end")

    return fn


def dust(n):
    """Each sample's dust: A(V) magnitudes with the law of its R(V), and its amplitude."""

    def fn(h):
        from dust_extinction.parameter_averages import F99
        import astropy.units as u

        av, amp = h.reals("av", n, 0.0, 2.0), h.reals("amp", n, 0.5, 2.0)
        rv = [h.pick("rv", (2.5, 3.1)), 4.0, 2.8][:n]
        z = [1.0, 0.25, 0.5][:n]
        f = h.real("f", 1.0, 10.0)
        mod = model(h, [[SCALE * f] * 4 for _ in range(4)], Av=listed(h, av), Rv=listed(h, rv), Amplitude=listed(h, amp), redshift=listed(h, z), t0=0.0)
        t, w = [0.5], [5500.0, 8000.0]
        _, got = run(h, mod, n, t, w)
        for i in range(n):
            s = 1.0 + z[i]
            for k, y in enumerate(w):
                law = float(F99(Rv=rv[i])(y / s * u.AA))
                h.close1(got(i, 0, k), njy(SCALE * f, y / s) * s * amp[i] * h.exp10(-0.4 * law * av[i]), "dimmed by the dust of the sample", rtol=1e-5, atol=1e-2)
        h.cover("end")

    return fn


def window(h):
    """Which times the model covers: those strictly inside 20 days before and 50 days after t0, stretched by the redshift."""
    t0, z = h.real("zero", -10.0, 10.0), h.real("z", 0.0, 3.0)
    kind = h.pick("given", ("both", "no redshift"))
    if kind != "both":
        z = 0.0
    mod = model(h, [[SCALE] * 4 for _ in range(4)], t0=t0, **(dict(redshift=z) if kind == "both" else {}))
    st = mod.sample_parameters()
    t = h.reals("time", 2, -200.0, 300.0)
    for x in t:
        h.assume(h.And(h.abs(x - t0 + 20.0 * (1.0 + z)) > 1e-6, h.abs(x - t0 - 50.0 * (1.0 + z)) > 1e-6))
    for x, y in zip(t, h.flat(mod.mask_by_time(h.arr(t), st))):
        h.same(h.true(y), h.true(h.And(x > t0 - 20.0 * (1.0 + z), x < t0 + 50.0 * (1.0 + z))), "times within the phases of the model")
    h.check(h.raises(lambda: mod.mask_by_time(h.arr(t)), ValueError), "a state is needed")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    k = dict(patches=patches)
    out = [
        Case("window", _e(window), bounds="any times, reference time and redshift", **k),
        Case("template-wave", _e(template("wave")), bounds="4 x 4 table of any values, any wavelength, at its phases", patches=clear),
        Case("template-phase", _e(template("phase")), bounds="4 x 4 table of any values, any phase, at its wavelengths", **k),
        Case("smooth", _e(smooth), bounds="4 x 4 table of any values", **k),
        Case("between-wave", _e(between("wave")), warm=False, bounds="5 x 4 table of any values, any wavelength, at its phases", patches=clear),
        Case("between-phase", _e(between("phase")), warm=False, bounds="5 x 4 table of any values, any phase, at its wavelengths", **k),
    ]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out += [
            Case(f"warp-{n}", _e(warp(n)), bounds=f"{n} samples, 2 times, 2 wavelengths, 5 x 4 tables of any values", **k),
            Case(f"dust-{n}", _e(dust(n)), bounds=f"{n} samples, 2 wavelengths, R(V) from a list", **k),
        ]
    return out
