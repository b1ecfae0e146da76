"""The simple models of the library: constant, step, sine, linear, tabulated spectra and band fluxes, galaxies and splines."""

import numpy as np

from props.common import listed
from symx.run import Case


def run(h, mod, n, t, w, before=None, **kw):
    """Observed flux for each (sample, time, wavelength)."""
    st = mod.sample_parameters(num_samples=n)
    if before is not None:
        before(st)
    f = mod.evaluate_sed(h.arr(t), h.arr(w), st, **kw)
    h.same(h.shape(f), (len(t), len(w)) if n == 1 else (n, len(t), len(w)), "shape")
    got = h.flat(f)
    return st, lambda i, a, b: got[(i * len(t) + a) * len(w) + b]


def frame(h, n):
    """A redshift and reference time per sample, or none; also the map to the rest frame."""
    t0 = h.reals("t0_", n, -10.0, 10.0)
    if h.pick("redshifted", (False, True)):
        z = h.reals("z", n, 0.1, 2.0)
        return dict(redshift=listed(h, z), t0=listed(h, t0)), t0, lambda i, t, w: (t0[i] + (t - t0[i]) / (1 + z[i]), w / (1 + z[i]), 1 + z[i])
    return dict(t0=listed(h, t0)), t0, lambda i, t, w: (t, w, 1.0)


def simple(n):
    """Constant, step, sine wave and linear models."""

    def fn(h):
        from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel

        kind = h.pick("model", ("constant", "step", "sine", "linear"))
        kw, t0, rest = frame(h, n)
        a, b, c = h.reals("a", n, -5.0, 5.0), h.reals("b", n, -5.0, 5.0), h.reals("c", n, 0.1, 2.0)
        t, w = h.reals("time", 2, -30.0, 30.0), h.reals("wave", 2, 100.0, 1000.0)
        A, B, C = listed(h, a), listed(h, b), listed(h, c)
        if kind == "constant":
            mod = ConstantSEDModel(A, node_label="m", **kw)
        elif kind == "step":
            mod = StepModel(A, B, node_label="m", **kw)
        elif kind == "sine":
            mod = SinWaveModel(brightness=A, amplitude=B, frequency=C, node_label="m", **kw)
        else:
            mod = LinearWavelengthModel(A, B, node_label="m", **kw)
        for i in range(n):
            for x in t:
                rt = rest(i, x, 1.0)[0]
                h.assume(h.And(h.abs(rt - t0[i]) > 1e-6, h.abs(rt - b[i]) > 1e-6))
        st, got = run(h, mod, n, t, w)
        for i in range(n):
            for j, x in enumerate(t):
                for k, y in enumerate(w):
                    rt, rw, s = rest(i, x, y)
                    if kind == "constant":
                        v = a[i]
                    elif kind == "step":
                        v = a[i] if h.true(h.And(rt >= t0[i], rt <= b[i])) else 0.0
                    elif kind == "sine":
                        v = a[i] + b[i] * h.sin(2.0 * np.pi * c[i] * (rt - t0[i]))
                    else:
                        v = a[i] + b[i] * rw
                    h.close1(got(i, j, k), v * s, f"the {kind} model with the sample's parameters", rtol=1e-5, atol=1e-3)
        h.cover("end")

    return fn


def limits(h):
    """A linear model only covers its wavelengths."""
    from lightcurvelynx.models.basic_models import LinearWavelengthModel

    lo, hi = h.real("lo", 100.0, 400.0), h.real("hi", 500.0, 900.0)
    lo, hi = (None if h.pick("no_lo", (False, True)) else lo), (None if h.pick("no_hi", (False, True)) else hi)
    mod = LinearWavelengthModel(2.0, 0.5, min_wave=lo, max_wave=hi, node_label="m")
    w = h.reals("wave", 2, 50.0, 1000.0)
    for x in w:
        for b in (lo, hi):
            if b is not None:
                h.assume(h.abs(x - b) > 1e-6)
    h.check(mod.minwave() is lo and mod.maxwave() is hi, "the given range")
    _, got = run(h, mod, 1, [1.0, 2.0], w)
    for j in range(2):
        for k, x in enumerate(w):
            inside = (lo is None or h.true(x >= lo)) and (hi is None or h.true(x <= hi))
            h.close1(got(0, j, k), 2.0 + 0.5 * x if inside else 0.0, "zero outside of the range", atol=1e-6)
    h.cover("end")


def static(n):
    """Tabulated spectra: interpolation of the selected table, zero outside of it."""

    def fn(h):
        from lightcurvelynx.models.static_sed_model import StaticSEDModel

        tabs = []
        for j in range(2):
            tabs.append((h.sorted_reals(f"w{j}", 2 + j, 200.0, 900.0, gap=0.01), h.reals(f"v{j}", 2 + j, -5.0, 5.0)))
        z = h.pick("z", (None, 1.0))
        weights = h.pick("weights", (None, [0.0, 1.0], [0.5, 0.5]))
        one = h.pick("single", (False, True))
        seds = [np.array([h.arr(a), h.arr(b)]) if not h.sym else _rows(h, a, b) for a, b in tabs]
        if one:
            mod = StaticSEDModel(seds[1], node_label="m", **({} if z is None else dict(redshift=z, t0=0.0)))
        else:
            mod = StaticSEDModel(seds, weights=weights, node_label="m", **({} if z is None else dict(redshift=z, t0=0.0)))
        h.same(len(mod), 1 if one else 2, "number of tables")
        t, w = h.reals("time", 2, -30.0, 30.0), h.real("wave", 100.0, 1000.0)
        s = 1.0 + (z or 0.0)
        for a, _ in tabs:
            for x in a:
                h.assume(h.abs(w / s - x) > 1e-3)
        st, got = run(h, mod, n, t, [w], color="red") if h.pick("extra", (False, True)) else run(h, mod, n, t, [w])
        sel = h.flat(mod.get_param(st, "selected_idx"))
        for i in range(n):
            j = next(j for j in range(2) if h.true(sel[i] == j))
            if one:
                h.same(j, 0, "the only table")
                j = 1
            else:
                h.check(weights is None or weights[j] > 0, "only tables with a weight are selected")
            xs, ys = tabs[j]
            v = 0.0
            for k in range(len(xs) - 1):
                if h.true(h.And(w / s >= xs[k], w / s <= xs[k + 1])):
                    v = ys[k] + (ys[k + 1] - ys[k]) / (xs[k + 1] - xs[k]) * (w / s - xs[k])
            for a in range(2):
                h.close1(got(i, a, 0), v * s, "interpolation of the selected table", rtol=1e-5, atol=1e-3)
            one_state = st.extract_single_sample(i)
            h.close1(mod.minwave(one_state), xs[0], "range of the selected table")
            h.close1(mod.maxwave(one_state), xs[-1], "range of the selected table")
        h.cover("end")

    return fn


def _rows(h, a, b):
    from symx import arrays

    return arrays.wrap([list(a), list(b)])


def static_refused(h):
    from lightcurvelynx.models.static_sed_model import StaticSEDModel

    x = h.reals("x", 3, 100.0, 900.0)
    for i in range(2):
        h.assume(h.abs(x[i + 1] - x[i]) > 1e-3)
    up = h.true(h.And(x[0] < x[1], x[1] < x[2]))
    tab = _rows(h, x, [1.0, 2.0, 3.0]) if h.sym else np.array([x, [1.0, 2.0, 3.0]])
    h.same(h.raises(lambda: StaticSEDModel([tab]), ValueError), not up, "unsorted wavelengths are refused, sorted ones are not")
    for bad in ([[1.0, 2.0]], [np.array([1.0, 2.0])], [np.zeros((3, 2))], [np.array([[1.0], [2.0]])]):
        h.check(h.raises(lambda bad=bad: StaticSEDModel(bad), ValueError), "tables have two rows and two points")
    h.cover("end")


def static_bands(n):
    def fn(h):
        from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

        vals = [dict(zip("gri", h.reals(f"v{j}", 3, -5.0, 5.0))) for j in range(2)]
        one = h.pick("single", (False, True))
        weights = h.pick("weights", (None, [1.0, 0.0]))
        mod = StaticBandfluxModel(vals[1], node_label="m") if one else StaticBandfluxModel(vals, weights=weights, node_label="m")
        st = mod.sample_parameters(num_samples=n)
        filters = h.pick("filters", (["g", "r", "g"], ["i", "i", "r"]))
        t = h.reals("time", 3, -30.0, 30.0)
        f = mod.evaluate_bandfluxes(None, h.arr(t), np.array(filters) if h.pick("array", (True, False)) else filters, st)
        h.same(h.shape(f), (3,) if n == 1 else (n, 3), "shape")
        got = h.flat(f)
        sel = h.flat(mod.get_param(st, "selected_idx"))
        for i in range(n):
            j = 1 if one else next(j for j in range(2) if h.true(sel[i] == j))
            h.check(one or weights is None or weights[j] > 0, "only tables with a weight are selected")
            for a, fl in enumerate(filters):
                h.close1(got[i * 3 + a], vals[j][fl], "the value of the filter in the selected table")
        h.check(h.raises(lambda: mod.evaluate_bandfluxes(None, h.arr(t), ["g", "g", "u"], st)), "unknown filters are refused")
        h.cover("end")

    return fn


POS = [(10.0, 20.0), (10.0, 20.001), (359.9999, 0.0), (0.0001, 0.0), (10.0005, 20.0), (50.0, 89.9995), (230.0, 89.9995)]


def galaxy(n):
    def fn(h):
        from lightcurvelynx.models.galaxy_models import GaussianGalaxy

        b, r = h.reals("b", n, 0.0, 10.0), h.pick("r", ([0.001, 0.0003, 0.004], [0.0005, 0.004, 0.001]))[:n]
        c = h.pick("centre", (POS[0], POS[3], POS[5]))
        q = h.pick("at", (None, *POS))
        mod = GaussianGalaxy(listed(h, b), listed(h, r), ra=c[0], dec=c[1], node_label="m")
        kw = {} if q is None else dict(ra=q[0], dec=q[1])
        _, got = run(h, mod, n, [1.0, 2.0], [500.0], **kw)
        d = 0.0 if q is None else separation(c, q)
        for i in range(n):
            for a in range(2):
                if d > 0.05:
                    want = 0.0
                elif d == 0.0:
                    want = b[i]
                else:
                    want = b[i] * float(np.exp(-(d * d) / (2.0 * r[i] * r[i])))
                h.close1(got(i, a, 0), want, "Gaussian in the distance from the centre, in degrees", rtol=1e-4, atol=1e-4)
        h.cover("end")

    return fn


def separation(a, b):
    """Angle between two positions, in degrees."""

    def vec(p):
        x, y = np.radians(p[0]), np.radians(p[1])
        return np.array([np.cos(y) * np.cos(x), np.cos(y) * np.sin(x), np.sin(y)])

    u, v = vec(a), vec(b)
    return float(np.degrees(np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v)))


class Bilinear:
    """scipy.interpolate.RectBivariateSpline of degree one: bilinear inside, clamped to the edges outside."""

    def __init__(self, x, y, z, kx=3, ky=3, **k):
        from symx import arrays
        from symx import core as c

        if (kx, ky) != (1, 1):
            raise c.Unsupported("spline of higher degree")
        self.x, self.y, self.z = arrays.wrap(x).tolist(), arrays.wrap(y).tolist(), arrays.wrap(z).tolist()

    def __call__(self, xq, yq, grid=True, dx=0, dy=0):
        from symx import arrays
        from symx import core as c

        if dx or dy:
            raise c.Unsupported("spline derivative")

        def locate(v, xs):
            if c.truth(c.s_le(v, xs[0])):
                return 0, 0.0
            for i in range(len(xs) - 1):
                if c.truth(c.s_le(v, xs[i + 1])):
                    return i, c.s_div(c.s_sub(v, xs[i]), c.s_sub(xs[i + 1], xs[i]))
            return len(xs) - 2, 1.0

        def mix(p, q, s):
            return c.s_add(p, c.s_mul(s, c.s_sub(q, p)))

        def at(u, v):
            i, a = locate(u, self.x)
            j, b = locate(v, self.y)
            z = self.z
            return mix(mix(z[i][j], z[i][j + 1], b), mix(z[i + 1][j], z[i + 1][j + 1], b), a)

        xq, yq = arrays.wrap(xq), arrays.wrap(yq)
        if grid:
            for q in (xq, yq):
                v = q.ravel().tolist()
                if any(not c.truth(c.s_le(v[i], v[i + 1])) for i in range(len(v) - 1)):
                    raise ValueError("queries must be sorted")
            return arrays.wrap([[at(u, v) for v in yq.ravel().tolist()] for u in xq.ravel().tolist()])
        xq, yq = np.broadcast_arrays(xq, yq)
        return arrays.wrap([at(u, v) for u, v in zip(arrays.wrap(xq).ravel().tolist(), arrays.wrap(yq).ravel().tolist())]).reshape(xq.shape)


def patches(symbolic):
    if not symbolic:
        return []
    from lightcurvelynx.models import spline_model

    return [(spline_model, "RectBivariateSpline", Bilinear)]


def spline(n):
    def fn(h):
        from lightcurvelynx.models.spline_model import SplineModel

        ts, ws = [0.0, 10.0, 15.0], [300.0, 500.0]
        z = [[h.real(f"f{i}{j}", -5.0, 5.0) for j in range(2)] for i in range(3)]
        amp = h.reals("amp", n, -2.0, 2.0)
        shift = h.pick("shift", ("t0", "none", "redshift"))
        t0 = h.reals("ref", n, -10.0, 10.0) if shift != "none" else None
        zs = 1.0 if shift == "redshift" else 0.0
        default = h.pick("default", (False, True))
        kw = {} if t0 is None else dict(t0=listed(h, t0))
        if zs:
            kw["redshift"] = zs
        if not default:
            kw["amplitude"] = listed(h, amp)
        mod = SplineModel(np.array(ts), np.array(ws), h.arr(z), time_degree=1, wave_degree=1, node_label="m", **kw)
        w = h.real("wave", 200.0, 1200.0)
        t = h.reals("time", 2, -20.0, 40.0)
        rw = w / (1.0 + zs)
        h.assume(h.And(h.abs(rw - 300.0) > 1e-3, h.abs(rw - 500.0) > 1e-3))
        h.check(mod.minwave() == 300.0 and mod.maxwave() == 500.0, "the range of the table")
        _, got = run(h, mod, n, t, [w])
        inside = h.true(h.And(rw >= 300.0, rw <= 500.0))
        b = (rw - 300.0) / 200.0
        for i in range(n):
            for a in range(2):
                q = t[a] if t0 is None else (t[a] - t0[i]) / (1.0 + zs)
                col = [r[0] + b * (r[1] - r[0]) for r in z]
                if h.true(q <= 0.0):
                    v = col[0]
                elif h.true(q >= 15.0):
                    v = col[2]
                else:
                    k = 0 if h.true(q <= 10.0) else 1
                    v = col[k] + (col[k + 1] - col[k]) / (ts[k + 1] - ts[k]) * (q - ts[k])
                h.close1(got(i, a, 0), (1.0 if default else amp[i]) * (1.0 + zs) * v if inside else 0.0, "the scaled table at the time since the reference", rtol=1e-4, atol=1e-3)
        h.cover("end")

    return fn


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    out = [Case("limits", _e(limits), bounds="2 wavelengths, with and without limits"), Case("static-refused", _e(static_refused), bounds="3 wavelengths in any order")]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        k = dict(tier="quick" if n < 3 else "thorough", random=True, max_paths=20000)
        b = f"{n} samples"
        out += [
            Case(f"simple-{n}", _e(simple(n)), bounds=b + ", 2 times, 2 wavelengths", **k),
            Case(f"static-{n}", _e(static(n)), bounds=b + ", 2 tables of 2 and 3 points", **k),
            Case(f"static-bands-{n}", _e(static_bands(n)), bounds=b + ", 2 tables, 3 observations", **k),
            Case(f"galaxy-{n}", _e(galaxy(n)), bounds=b + ", fixed positions and radii, any brightness", **k),
            Case(f"spline-{n}", _e(spline(n)), bounds=b + ", 3x2 table, degree one", patches=patches, **k),
        ]
    return out
