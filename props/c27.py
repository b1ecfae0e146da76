"""Periodic models: the phase, the brightness of a star at a distance, and eclipsing binaries."""

import numpy as np

from props.c25 import run
from props.common import listed
from symx.run import Case

PC, NJY = 3.0856775814913674e18, 1e32
K_B, H_P, C_L = 1.380649e-16, 6.62607015e-27, 2.99792458e10


def frame(h, n):
    t0 = h.reals("t0_", n, -10.0, 10.0)
    if h.pick("redshifted", (False, True)):
        z = [0.25, 1.0, 3.0][:n]
        return dict(redshift=listed(h, z), t0=listed(h, t0)), t0, [1.0 + x for x in z]
    return dict(t0=listed(h, t0)), t0, [1.0] * n


def phase(n):
    """The phase is the time since t0 in periods, wrapped to [0, 1)."""

    def fn(h):
        from lightcurvelynx.models.periodic_model import PeriodicModel

        class Toy(PeriodicModel):
            seen = []

            def _evaluate_phases(self, phases, wavelengths, graph_state, tint=0.0, **kwargs):
                self.seen.append((h.flat(phases), h.flat(wavelengths)))
                return (phases * self.get_param(graph_state, "amp") + tint)[:, None] + wavelengths[None, :] * 0.0

        kw, t0, s = frame(h, n)
        p, amp = h.reals("period", n, 0.5, 4.0), h.reals("amp", n, 1.0, 2.0)
        tint = h.real("tint", 0.0, 1.0)
        mod = Toy(listed(h, p), node_label="m", **kw)
        mod.add_parameter("amp", listed(h, amp))
        w = h.reals("wave", 2, 100.0, 1000.0)
        # times at a phase f of each sample's period would differ between samples, so the first sample sets them
        f, m = h.reals("f", 2, 0.01, 0.99), [h.int(f"m{j}", -3, 3) for j in range(2)]
        t = [t0[0] + (f[j] + m[j]) * p[0] * s[0] for j in range(2)]
        for i in range(1, n):
            for x in t:
                u = (x - t0[i]) / s[i] / p[i]
                h.assume(h.And(u - h.floor(u) > 1e-3, u - h.floor(u) < 1.0 - 1e-3))
        _, got = run(h, mod, n, t, w, tint=tint)
        for i in range(n):
            for j, x in enumerate(t):
                u = (x - t0[i]) / s[i] / p[i]
                ph = f[j] if i == 0 else u - h.floor(u)
                h.close1(Toy.seen[i][0][j], ph, "the fraction of the period passed since t0", rtol=1e-6, atol=1e-7)
                for k, y in enumerate(w):
                    h.close1(Toy.seen[i][1][k], y / s[i], "the rest-frame wavelength")
                    h.close1(got(i, j, k), (amp[i] * ph + tint) * s[i], "the brightness at that phase", rtol=1e-6, atol=1e-6)
        h.cover("end")

    return fn


def star(n):
    """Luminosity density over distance squared, in nJy."""

    def fn(h):
        from lightcurvelynx.models.periodic_variable_star import PeriodicVariableStar

        class Toy(PeriodicVariableStar):
            def _dl_dnu_domega_phases(self, phases, wavelengths_cm, graph_state, **kwargs):
                return (1.0 + phases)[:, None] * wavelengths_cm[None, :] * 1e20 * self.get_param(graph_state, "lum")

        h.check(h.raises(lambda: Toy(period=1.0, t0=0.0, node_label="x"), ValueError), "a star without a distance is refused")
        kw, t0, s = frame(h, n)
        d, lum = h.reals("dist", n, 1.0, 1000.0), h.reals("lum", n, 1.0, 2.0)
        p = [2.0, 0.5, 4.0][:n]
        mod = Toy(period=listed(h, p), distance=listed(h, d), node_label="m", **kw)
        mod.add_parameter("lum", listed(h, lum))
        t, w = h.reals("time", 1, -4.0, 4.0), h.reals("wave", 2, 1000.0, 9000.0)
        for i in range(n):
            u = (t[0] - t0[i]) / s[i] / p[i]
            h.assume(h.And(u - h.floor(u) > 1e-3, u - h.floor(u) < 1.0 - 1e-3))
        _, got = run(h, mod, n, t, w)
        for i in range(n):
            u = (t[0] - t0[i]) / s[i] / p[i]
            for m, y in enumerate(w):
                want = (1.0 + u - h.floor(u)) * (y / s[i] * 1e-8 * 1e20) * lum[i] * (NJY / PC / PC) / d[i] / d[i] * s[i]
                h.close1(got(i, 0, m), want, "luminosity density over the distance squared", rtol=1e-5)
        h.cover("end")

    return fn


def planck(temp, wave_cm):
    """Intensity per frequency: a stand-in during the search, Planck's law when replayed."""
    if hasattr(planck, "toy") and planck.toy:
        return temp * (2.0 + wave_cm * 1e4) * 1e-8
    nu = C_L / wave_cm
    return 2 * H_P * nu**3 / C_L**2 / np.expm1(H_P * nu / (K_B * temp))


class Intensity:
    def __init__(self, v):
        self.v = v

    def to_value(self, unit):
        return self.v


class Body:
    def __init__(self, temperature):
        self.temperature = temperature

    def __call__(self, wave):
        return Intensity(planck(self.temperature, wave))


class Units:
    K = cm = erg = s = Hz = steradian = 1.0


def law(h, temp, y):
    planck.toy = h.sym
    return planck(temp, y)


def lens(h, d, r1, r2):
    """Area shared by two circles that cross each other."""
    a1 = h.acos((d * d + r1 * r1 - r2 * r2) / (2 * d * r1))
    a2 = h.acos((d * d + r2 * r2 - r1 * r1) / (2 * d * r2))
    return r1 * r1 * a1 + r2 * r2 * a2 - d * r1 * h.sin(a1)


def params(h, n, conc):
    def val(name, lo, hi, c):
        # the radii of a second sample are fixed, to keep the number of cases down
        k = 1 if name in ("r1", "r2") else n
        return [c[i] for i in range(n)] if name in conc else h.reals(name, k, lo, hi) + c[k:n]

    return dict(
        major_semiaxis=val("a", 1.0, 8.0, [5.0, 3.0]),
        inclination=val("inc", 0.0, 90.0, [88.0, 80.0]),
        primary_radius=val("r1", 0.5, 2.0, [1.0, 0.75]),
        secondary_radius=val("r2", 0.5, 2.0, [0.75, 1.5]),
        primary_temperature=val("T1", 2000.0, 9000.0, [6000.0, 3000.0]),
        secondary_temperature=val("T2", 2000.0, 9000.0, [3500.0, 8000.0]),
    )


def binary(n, which, axis=None):
    """Both stars shine; the one behind loses the fraction of its disc that is covered."""

    def fn(h):
        from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

        planck.toy = h.sym
        R = 1.0
        if which == "times":
            ph = h.reals("u", 1, 0.0, 1.0)
            q = params(h, n, ("a", "inc", "r1", "r2"))
        else:
            ph = [h.pick("phase", (0.0, 0.03, 0.2, 0.3, 0.5, 0.53, 0.8) if n == 1 else (0.03, 0.5, 0.97))]
            q = params(h, n, ("a", "inc", "T1", "T2"))
            q["inclination"] = [h.pick("tilt", (90.0, 84.0, 0.0))] * n
            q["major_semiaxis"] = [axis] * n
        for i in range(n):
            h.assume(h.And(q["primary_radius"][i] + 0.1 < q["major_semiaxis"][i], q["secondary_radius"][i] + 0.1 < q["major_semiaxis"][i], h.abs(q["primary_radius"][i] - q["secondary_radius"][i]) > 0.01))
        z = h.pick("redshift", (None, 0.5))
        s = 1.0 if z is None else 1.5
        kw = {k: listed(h, [x * R for x in v] if "radius" in k or "semi" in k else v) for k, v in q.items()}
        if z is not None:
            kw["redshift"] = z
        p = [4.0, 4.0, 4.0][:n]
        dist = [10.0, 500.0][:n]
        mod = EclipsingBinaryStar(period=listed(h, p), distance=listed(h, dist), t0=3.0, node_label="m", **kw)
        w = [4000.0, 7000.0]
        t = [3.0 + 4.0 * x * s for x in ph]
        data = []
        for i in range(n):
            inc = q["inclination"][i] * np.pi / 180.0
            a, r1, r2 = q["major_semiaxis"][i], q["primary_radius"][i], q["secondary_radius"][i]
            u = (t[0] - 3.0) / s / 4.0
            u = u - h.floor(u)
            x, y = h.sin(2 * np.pi * u), h.cos(2 * np.pi * u)
            d = a * h.sqrt(x * x + (np.cos(inc) * y) * (np.cos(inc) * y))
            h.assume(h.And(h.abs(d - (r1 + r2)) > 1e-3, h.abs(d - h.abs(r1 - r2)) > 1e-3))
            if which == "times":
                h.assume(h.And(h.abs(ph[0] - 0.25) > 1e-3, h.abs(ph[0] - 0.75) > 1e-3, ph[0] < 1.0 - 1e-3, ph[0] > 1e-3))
            # which discs overlap, and facts of geometry that the solver, to whom arccos is unknown, is given
            c1, c2 = (d * d + r1 * r1 - r2 * r2) / (2 * d * r1), (d * d + r2 * r2 - r1 * r1) / (2 * d * r2)
            m = h.min(r1, r2)
            if h.true(d >= r1 + r2):
                cov = 0.0
                h.assume(h.And(c1 > 1.0, c2 > 1.0))
            elif h.true(d <= h.abs(r1 - r2)):
                cov = np.pi * m * m
                h.assume(h.And(h.abs(c1) > 1.0, h.abs(c2) > 1.0))
            else:
                h.assume(h.And(h.abs(c1) < 1.0, h.abs(c2) < 1.0))
                cov = lens(h, d, r1, r2)
                h.assume(h.And(cov >= 0.0, cov <= np.pi * m * m))
            data.append((cov, r1, r2))
        def before(st):  # an earlier query leaves nothing behind
            mod.evaluate_sed(h.arr([3.0 + 4.0 * 0.02 * s]), h.arr(w[::-1]), st)
            mod.evaluate_sed(h.arr([3.0 + 4.0 * 0.49 * s]), h.arr(w), st)

        _, got = run(h, mod, n, t, w, before=before if which == "times" else None)
        for i in range(n):
            cov, r1, r2 = data[i]
            front2 = h.true(h.Or(ph[0] < 0.25, ph[0] > 0.75))
            f1 = 1.0 - cov / np.pi / (r1 * r1) if front2 else 1.0
            f2 = 1.0 if front2 else 1.0 - cov / np.pi / (r2 * r2)
            for m, y in enumerate(w):
                wc = y / s * 1e-8
                l1 = np.pi * r1 * r1 * law(h, q["primary_temperature"][i], wc)
                l2 = np.pi * r2 * r2 * law(h, q["secondary_temperature"][i], wc)
                scale = R * R * NJY / (dist[i] * PC) ** 2 * s
                h.close1(got(i, 0, m) / scale, l1 * f1 + l2 * f2, "the star behind loses the covered part of its light", rtol=1e-4)
        h.cover("end")

    return fn


def bound(h):
    """The binary is never brighter than both stars, nor negative, at any time and inclination."""
    from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

    planck.toy = h.sym
    q = params(h, 1, ("T1", "T2", "a"))
    R = 1.0
    h.assume(h.And(q["primary_radius"][0] + q["secondary_radius"][0] < 4.0))
    kw = {k: (x[0] * R if "radius" in k or "semi" in k else x[0]) for k, x in q.items()}
    p, t0, t = h.real("period", 0.5, 4.0), h.real("zero", -10.0, 10.0), h.real("time", -20.0, 20.0)
    mod = EclipsingBinaryStar(period=p, distance=10.0, t0=t0, node_label="m", **kw)
    _, got = run(h, mod, 1, [t], [5000.0])
    l1 = np.pi * q["primary_radius"][0] ** 2 * law(h, q["primary_temperature"][0], 5e-5)
    l2 = np.pi * q["secondary_radius"][0] ** 2 * law(h, q["secondary_temperature"][0], 5e-5)
    f = got(0, 0, 0) / (R * R * NJY / (10.0 * PC) ** 2)
    h.check(h.And(f >= -1e-9 * (l1 + l2), f <= (l1 + l2) * (1.0 + 1e-9)), "between darkness and the light of both stars")
    h.cover("end")


def separation(h):
    """The projected distance of the centres, for any phase and inclination."""
    from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

    u, i = h.real("phase", 0.0, 1.0), h.real("tilt", 0.0, 90.0)
    d = h.flat(EclipsingBinaryStar._norm_star_center_distance(h.arr([u]), i))[0]
    a, b = 2.0 * np.pi * u, i * np.pi / 180.0
    # the centre of the companion in the plane of the sky: the line of sight is x
    y, z = h.sin(a), h.cos(a) * h.cos(b)
    h.close1(d * d, y * y + z * z, "projected distance", atol=1e-9)
    h.check(h.And(d >= 0.0, d <= 1.0 + 1e-9), "at most the semi-axis")
    h.cover("end")


def body(h):
    """A sphere of a temperature and radius."""
    from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid as fun

    planck.toy = h.sym
    T, r = h.real("T", 2000.0, 20000.0), h.real("r", 0.1, 10.0)
    w = h.sorted_reals("w", 2, 0.1, 10.0, gap=0.1)
    got = h.flat(fun(T, r * 1e10, h.arr([x * 1e-4 for x in w])))
    for g, x in zip(got, w):
        h.close1(g, np.pi * r * r * 1e20 * law(h, T, x * 1e-4), "the intensity of the disc", rtol=1e-4)
    h.cover("end")


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.astro_utils.black_body as bb

    return [(bb, "BlackBody", Body), (bb, "u", Units)]


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    out = [
        Case("separation", _e(separation), bounds="any phase and inclination"),
        Case("body", _e(body), bounds="any temperature, radius and 2 wavelengths", patches=patches),
        Case("bound", _e(bound), warm=False, bounds="any geometry, period and time", patches=patches),
    ]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        k = dict(tier="quick" if n < 3 else "thorough", max_paths=20000)
        b = f"{n} samples"
        out += [
            Case(f"phase-{n}", _e(phase(n)), warm=False, bounds=b + ", 2 times, 2 wavelengths", **k),
            Case(f"star-{n}", _e(star(n)), bounds=b + ", 1 time, 2 wavelengths", **k),
        ]
        if n < 3:
            out += [
                *[Case(f"eclipse-{n}-{a}", fn=_e(binary(n, "radii", a)), warm=False, bounds=b + f", 7 phases (3 for 2 samples), 3 inclinations, semi-axis {a}, any radii", patches=patches, query_ms=30000, **k) for a in ((2.5, 4.0) if n == 1 else (2.5,))],
            ]
        if n == 1 or tier == "thorough":
            out += [Case(f"times-{n}", _e(binary(n, "times")), warm=False, bounds=b + ", any phase and temperatures, fixed geometry", patches=patches, **dict(k, time_limit=600))]
    return out
