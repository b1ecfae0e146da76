"""Active galactic nuclei: derived parameters, the disk, the damped random walk and the flux."""

import numpy as np

from props.c25 import run
from props.common import listed
from symx import arrays
from symx import core as c
from symx.run import Case

M_SUN, PC, NJY = 1.988409870698051e33, 3.0856775814913674e18, 1e32
G, C, K_B, H_P, SIGMA = 6.6743e-8, 2.99792458e10, 1.380649e-16, 6.62607015e-27, 5.6703744191844314e-5


def made(h, n, **kw):
    from lightcurvelynx.models.agn import AGN

    m, e = h.reals("mass", n, 1e5, 1e12), h.reals("edd", n, 0.01, 2.0)
    z = [0.25, 1.0, 0.5][:n]
    d = h.reals("dist", n, 1e6, 1e9)
    mod = AGN(t0=kw.pop("t0", 0.0), blackhole_mass=listed(h, m), edd_ratio=listed(h, e), redshift=listed(h, z), distance=listed(h, d), node_label="m", seed=1, **kw)
    return mod, m, e, d, [1.0 + x for x in z]


def derived(n):
    """Each sample's masses, rates, luminosities and variability come from its own mass and Eddington ratio."""

    def fn(h):
        from props.common import own_draws  # noqa: F401
        from symx.harness import ScriptedRNG

        mod, m, e, _, _ = made(h, n)
        rng = ScriptedRNG(h, "g")
        st = mod.sample_parameters(num_samples=n, rng_info=rng)
        get = lambda k: h.flat(mod.get_param(st, k))  # noqa: E731
        h.same(len(get("inclination_rad")), n, "an inclination per sample")
        for i in range(n):
            inc = get("inclination_rad")[i]
            h.check(h.And(inc >= 0.0, inc <= np.pi / 2 + 1e-12), "the inclination is between face-on and edge-on")
            h.close1(get("blackhole_mass")[i], m[i], "the mass given")
            h.close1(get("blackhole_mass_gram")[i] / 1e33, m[i] * (M_SUN / 1e33), "the mass in gram", rtol=1e-5)
            h.close1(get("critical_accretion_rate")[i] / 1e18, 1.4 * m[i], "the rate at the Eddington luminosity", rtol=1e-5)
            h.close1(get("blackhole_accretion_rate")[i] / 1e18, 1.4 * m[i] * e[i], "the rate scaled by the ratio", rtol=1e-5)
            h.close1(get("bolometric_luminosity")[i] / 1e38, 1.26 * m[i] * e[i], "the luminosity", rtol=1e-5)
            mag = 90.0 - 2.5 * h.log10(1.26e38 * m[i] * e[i])
            h.close1(get("mag_i")[i], mag, "the magnitude of the luminosity", rtol=1e-6, atol=1e-6)
            lm = h.log10(m[i] / 1e9)
            h.close1(h.log10(get("sf_inf_4000aa")[i]), -0.476 + 0.118 * (mag + 23.0) + 0.118 * lm, "the amplitude of the variability", rtol=1e-6, atol=1e-6)
            h.close1(h.log10(get("tau_4000aa")[i]), 2.597 + 0.035 * (mag + 23.0) + 0.141 * lm, "the time scale of the variability", rtol=1e-6, atol=1e-6)
        h.cover("end")

    return fn


def refused(h):
    from lightcurvelynx.models.agn import AGN

    t0, m, e, z, d = h.real("t0", 0.0, 1.0), h.real("mass", 1e6, 1e9), h.real("edd", 0.1, 1.0), h.real("z", 0.1, 1.0), h.real("dist", 1e6, 1e8)
    kw = dict(t0=t0, blackhole_mass=m, edd_ratio=e, node_label="m")
    h.check(h.raises(lambda: AGN(distance=d, **kw), ValueError), "a redshift is needed")
    h.check(h.raises(lambda: AGN(redshift=z, **kw), ValueError), "a distance is needed")
    mod = AGN(redshift=z, distance=d, **kw)
    st = mod.sample_parameters()
    for k, v in (("t0", t0), ("redshift", z), ("distance", d), ("edd_ratio", e)):
        h.close1(mod.get_param(st, k), v, "the value given")
    h.cover("end")


def start(h, m, k):
    from symx.harness import ScriptedRNG

    t0 = h.real("t0", -10.0, 10.0)
    t = [t0 + x for x in h.sorted_reals("since", m, 0.1, 50.0, gap=0.1)]
    tau, sf = h.reals("tau", k, 5.0, 500.0), h.reals("sf", k, 0.01, 1.0)
    return t0, t, tau, sf, ScriptedRNG(h, "g")


def walk(m, k):
    """The walk starts within the amplitude, forgets with its time scale and moves all wavelengths together."""

    def fn(h):
        from lightcurvelynx.models.agn import sample_damped_random_walk

        t0, t, tau, sf, rng = start(h, m, k)
        got = sample_damped_random_walk(h.arr(t), h.arr(tau), h.arr(sf), t0, rng=rng)
        h.same(h.shape(got), (m, k), "a value per time and wavelength")
        h.same(len(rng.log), m + 1, "one draw at the start and one per time")
        u = [e[1] for e in rng.log]
        g = h.flat(got)
        step = lambda d, dt, j, i: d * h.exp(-dt / tau[j]) + sf[j] * h.sqrt(1.0 - h.exp(-2.0 * dt / tau[j])) * u[i + 1]  # noqa: E731
        off = []
        for j in range(k):
            right = as_is = u[0] * sf[j]
            same = []
            for i in range(m):
                right = step(right, t[i] - (t[i - 1] if i else t0), j, i)
                as_is = step(as_is, t[i] - t0, j, i)
                same.append([h.abs(g[i * k + j] - v) <= 1e-6 * (1.0 + h.abs(v)) for v in (right, as_is)])
            h.check(same[0][0], "the first step is measured from the reference time")
            # the known finding: later steps are measured from the reference time as well
            h.check(h.Or(h.And(*[x for x, _ in same]), h.And(*[x for _, x in same])), "the steps of the walk")
            off += [x for x, _ in same]
        h.cover("end")
        h.check(h.And(*off), "the step is measured from the previous time")

    return fn


def order(h):
    """Times that do not increase and tables of different lengths are refused."""
    from lightcurvelynx.models.agn import sample_damped_random_walk

    t0, t, tau, sf, rng = start(h, 2, 1)
    a = h.real("back", 0.0, 40.0)
    back = h.raises(lambda: sample_damped_random_walk(h.arr([t[0], t0 - a]), h.arr(tau), h.arr(sf), t0, rng=rng), ValueError)
    h.check(back, "times before the reference time are refused after the first")
    h.check(h.raises(lambda: sample_damped_random_walk(h.arr(t), h.arr(tau), h.arr(sf + sf), t0, rng=rng), ValueError), "a time scale per amplitude")
    h.cover("end")


def scaling(which):
    """The values at 4000 Angstrom are those given, and the wavelength scales them by a power."""

    def fn(h):
        from lightcurvelynx.models.agn import AGN

        a = h.reals("at4000", 2, 0.01, 500.0)
        w = h.real("wave", 1000.0, 9000.0)
        f, b = {"sf": (AGN.compute_structure_function_at_inf, -0.479), "tau": (AGN.compute_tau, 0.17)}[which]
        one = lambda x, y: h.flat(f(h.arr([x]), h.arr([y * 1e-8])))[0]  # noqa: E731
        h.close1(one(a[0], w) * a[1], one(a[1], w) * a[0], "proportional to the value at 4000 Angstrom", rtol=1e-6, atol=1e-6)
        got = one(a[0], w)
        as_is = a[0] * 10**b * w / 4000.0
        want = a[0] * h.exp10(b * h.log10(w / 4000.0))
        ok = lambda v: h.abs(got - v) <= 1e-6 * h.abs(v)  # noqa: E731
        h.check(h.Or(ok(want), ok(as_is)), "a scaling with the wavelength")
        h.cover("end")
        h.close1(one(a[0], 4000.0), a[0], "the value at 4000 Angstrom", rtol=1e-6, atol=1e-9)

    return fn


class Quad:
    """scipy's quad: the integral as a function of the lower limit only."""

    def __init__(self):
        self.seen = []

    def __getattr__(self, n):
        import scipy.integrate as s

        return getattr(s, n)

    def quad(self, f, a, b, *args, **kw):
        self.seen.append((f, a, b))
        return integral(a), 0.0


def integral(a):
    return 2.0 - 0.01 * a


QUAD = Quad()


def disk(h):
    """A disk radiates as rings of black bodies: inverse square, projected, and integrated outwards from the inner edge."""
    from lightcurvelynx.models.agn import AGN

    m, md = h.pick("mass", (1e8, 1e9)), h.pick("rate", (1e26, 3e26))
    M = m * M_SUN
    nu = h.reals("nu", 2, 0.5, 2.0)
    d, inc = h.real("d", 1.0, 100.0), h.real("inc", 0.1, 1.4)
    del QUAD.seen[:]
    got = h.flat(AGN.compute_sed_standard_disk(Mdot=md, nu=h.arr([x * 1e15 for x in nu]), rin_to_rg=6.0, i=inc, d=d * 1e6 * PC, M=M))
    rin = G * M / C**2 * 6.0
    r0 = 49.0 / 36.0 * rin
    T0 = 2**0.75 * (3.0 / 7.0) ** 1.75 * (G * M * md / (np.pi * SIGMA * rin**3)) ** 0.25
    for j, x in enumerate(nu):
        xin = H_P * 1e15 / (K_B * T0) * (36.0 / 49.0) ** 0.75 * x
        if not h.sym:
            import scipy.integrate as s

            val = s.quad(lambda y: y ** (5 / 3) / np.expm1(y), xin, np.inf)[0]
        else:
            f, a, b = QUAD.seen[j]
            h.close1(a, xin, "from the inner edge", rtol=1e-4)
            h.check(b == np.inf, "to infinity")
            for y in (0.5, 1.0, 3.0):
                h.close1(f(y), y ** (5 / 3) / np.expm1(y), "the integrand of a thin disk", rtol=1e-9)
            val = integral(xin)
        # F = 16 pi / 3 cos(i) / d^2 r0^2 (k T0 / h)^(8/3) h nu^(1/3) / c^2 I
        k = 16 * np.pi / 3 * (K_B * T0 / H_P) ** (8 / 3) * H_P * 1e5 / C**2 * r0**2 / (1e6 * PC) ** 2 * NJY / 1e-23 * 1e-23
        h.close1(got[j], k / (d * d) * h.cos(inc) * h.pow(x, 1.0 / 3.0) * val, "the flux of the disk", rtol=1e-4, atol=1e-12)
    h.cover("end")


def flux(n, m):
    """The flux is that of the disk at each sample's parameters, dimmed by the magnitudes of the walk."""

    def fn(h):
        from lightcurvelynx.models import agn

        zero = h.reals("zero", n, -5.0, 5.0)
        mod, mass, edd, d, s = made(h, n, t0=listed(h, zero))
        t = [10.0 + x for x in h.sorted_reals("time", m, 0.0, 20.0, gap=0.5)]
        w = h.reals("wave", 2, 1000.0, 9000.0)
        seen = []

        def toy_walk(times, tau_v, sf_inf, t0, rng=None):
            seen.append((h.flat(times), h.flat(tau_v), h.flat(sf_inf), t0, rng))
            return arrays.wrap([[2.0 + 0.1 * (x - t0) for _ in h.flat(tau_v)] for x in h.flat(times)]) if h.sym else np.array([[2.0 + 0.1 * (x - t0) for _ in h.flat(tau_v)] for x in h.flat(times)])

        disks = []

        def toy_disk(*, Mdot, nu, rin_to_rg, i, d, M):
            disks.append((Mdot, h.flat(nu), rin_to_rg, i, d, M))
            return nu * 1e-10 * (M / 1e42) / (d / PC / 1e8) * (1.0 + i)

        keep = agn.sample_damped_random_walk
        agn.sample_damped_random_walk = toy_walk
        mod.compute_sed_standard_disk = toy_disk

        def before(st):  # an earlier query with other values leaves nothing behind
            mod.evaluate_sed(h.arr([x + 1.0 for x in t]), h.arr(w), st)
            mod.evaluate_sed(h.arr(t), h.arr(w[::-1]), st)
            seen.clear()
            disks.clear()

        try:
            st, got = run(h, mod, n, t, w, before=before)
        finally:
            agn.sample_damped_random_walk = keep
        get = lambda k, i: h.flat(mod.get_param(st, k))[i]  # noqa: E731
        h.same((len(seen), len(disks)), (n, n), "one walk and one disk per sample")
        for i in range(n):
            md, nus, rr, inc, dd, M = disks[i]
            h.close1(md / 1e18, 1.4 * mass[i] * edd[i], "the disk's rate", rtol=1e-5)
            h.close1(M / 1e33, mass[i] * (M_SUN / 1e33), "the disk's mass", rtol=1e-5)
            h.close1(dd / PC, d[i], "the disk's distance in cm", rtol=1e-6)
            h.close1(inc, get("inclination_rad", i), "the disk's inclination")
            h.check(rr == 6.0, "the innermost stable orbit")
            tt, tau, sf, t0, _ = seen[i]
            h.close1(t0, zero[i], "the walk starts at the sample's reference time")
            for k, x in enumerate(w):
                h.close1(nus[k] / 1e15, C / 1e7 / (x / s[i]), "the rest-frame frequency", rtol=1e-5)
            h.same((len(tau), len(h.flat(seen[i][2]))), (2, 2), "a time scale and an amplitude per wavelength")
            f = lambda k, b: [get(k, i) * 10**b * y / s[i] / 4000.0 for y in w] + [get(k, i) * h.exp10(b * h.log10(y / s[i] / 4000.0)) for y in w]  # noqa: E731, B023
            for key, b, vals in (("tau_4000aa", 0.17, tau), ("sf_inf_4000aa", -0.479, seen[i][2])):
                want = f(key, b)
                for k in range(2):
                    # either form of the scaling (see the known findings)
                    h.check(h.Or(*[h.abs(vals[k] - v) <= 1e-6 * h.abs(v) for v in (want[k], want[2 + k])]), "scaled to the rest-frame wavelength")
            for j, x in enumerate(t):
                rt = (x - zero[i]) / s[i] + zero[i]
                h.close1(tt[j], rt, "the rest-frame time", rtol=1e-6, atol=1e-7)
                dm = 2.0 + 0.1 * (rt - zero[i])
                for k, y in enumerate(w):
                    av = C * 1e-2 / (y / s[i]) * (mass[i] * (M_SUN / 1e42)) / (d[i] / 1e8) * (1.0 + get("inclination_rad", i))
                    h.close1(got(i, j, k), av * h.exp10(-0.4 * dm) * s[i], "the disk's flux, dimmed by the walk", rtol=1e-5, atol=1e-9)
        h.cover("end")

    return fn


def ratios(h):
    """The distribution of Eddington ratios with parameters drawn for each kind of galaxy."""
    from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun as f
    from symx.harness import ScriptedRNG

    kind = h.pick("kind", ("red", "Blue"))
    n = h.pick("n", (1, 2))
    x = h.real("ratio", 0.01, 2.0)
    rng = ScriptedRNG(h, "g")
    got = f(x, kind, rng, n)
    h.same(h.shape(got), () if n == 1 else (n,), "a value per sample")
    p = {"red": (-2.13, (-2.81, 0.18), (-0.29, 0.02), (1.22, 0.16)), "blue": (-1.65, (-1.84, 0.335), (-0.229, 0.02), (2.53, 0.53))}[kind.lower()]
    h.same(len(rng.log), 3 * n, "three parameters per sample")
    z = [e[1] for e in rng.log]
    for i, g in enumerate(h.flat(got)):
        br, d1, d2 = (q[0] + q[1] * z[j * n + i] for j, q in enumerate(p[1:]))
        y = x / h.exp10(br)
        h.close1(g, 10 ** p[0] * (h.pow(y, d1) + h.pow(y, d2)), "a double power law around the break", rtol=1e-6, atol=1e-9)
    h.check(h.raises(lambda: f(x, "green", rng, n), ValueError), "other kinds are refused")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


def patches(symbolic):
    from lightcurvelynx.models import agn

    return [(agn, "integrate", QUAD)] if symbolic else []


def cases(tier):
    out = [
        Case("refused", _e(refused), bounds="any values"),
        Case("ratios", _e(ratios), bounds="1 or 2 samples, any ratio and draws", random=True),
        Case("order", _e(order), bounds="any times", random=True),
        Case("scaling-sf", _e(scaling("sf")), bounds="any wavelength"),
        Case("scaling-tau", _e(scaling("tau")), bounds="any wavelength"),
        Case("disk", _e(disk), bounds="2 masses and rates; any frequency, distance and inclination", patches=patches),
        Case("walk-1-2", _e(walk(1, 2)), bounds="1 time, 2 wavelengths", random=True),
        Case("walk-3-1", _e(walk(3, 1)), bounds="3 times, 1 wavelength", random=True),
    ]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out += [
            Case(f"derived-{n}", _e(derived(n)), bounds=f"{n} samples", random=True),
            Case(f"flux-{n}", _e(flux(n, 2)), bounds=f"{n} samples, 2 times, 2 wavelengths", random=True),
        ]
    return out
