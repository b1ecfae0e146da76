"""Measurement noise: Poisson error of a bandflux, from the conditions of the observation it belongs to."""

import numpy as np
import pandas as pd

from symx.harness import ScriptedRNG
from symx.run import Case

from . import c07

AREA = float(np.pi / (2 * np.log(2)))


def poisson(h):
    """err^2 = F zp + zp^2 (sky + read^2 n + dark t) A, element-wise."""
    from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std

    n = 2
    f = h.reals("flux", n, 0.0, 1e5)
    t, cnt, area, sky, zp, rd, dk = [h.reals(k, n, lo, hi) for k, lo, hi in (
        ("t", 1.0, 100.0), ("n", 1.0, 5.0), ("area", 0.1, 50.0), ("sky", 0.0, 100.0), ("zp", 0.1, 10.0), ("read", 0.0, 20.0), ("dark", 0.0, 5.0))]  # fmt: skip

    def std(**over):
        kw = dict(total_exposure_time=t, exposure_count=cnt, psf_footprint=area, sky=sky, zp=zp, readout_noise=rd, dark_current=dk)
        flux = over.pop("flux", f)
        kw.update(over)
        return poisson_bandflux_std(h.arr(flux), **{k: h.arr(v) if isinstance(v, list) else v for k, v in kw.items()})

    e = std()
    h.same(h.shape(e), (n,), "one error per flux")
    for i in range(n):
        h.check(e[i] >= 0, "an error is not negative")
        want = f[i] * zp[i] + zp[i] * zp[i] * area[i] * (sky[i] + rd[i] * rd[i] * cnt[i] + dk[i] * t[i])
        h.close1(e[i] * e[i], want, "variance: source, sky, readout and dark current add up", atol=1e-6)
        h.check(e[i] * e[i] >= f[i] * zp[i] * (1 - 1e-9), "not below the photon noise of the source")
    scalar = poisson_bandflux_std(f[0], total_exposure_time=t[0], exposure_count=cnt[0], psf_footprint=area[0], sky=sky[0], zp=zp[0], readout_noise=rd[0], dark_current=dk[0])
    h.close1(scalar, e[0], "a scalar gives what an array gives")
    # the readout noise of the whole observation may be a function of the exposure time
    g = std(readout_noise=lambda x: 2.0 * x)
    for i in range(n):
        want = f[i] * zp[i] + zp[i] * zp[i] * (area[i] * (sky[i] + dk[i] * t[i]) + 4.0 * t[i] * t[i])
        h.close1(g[i] * g[i], want, "readout noise from a function of the exposure time", atol=1e-6)
    h.cover("end")


def monotone(h):
    """Every source of noise increases the error."""
    from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std

    kw = {k: h.real(k, lo, hi) for k, lo, hi in (
        ("bandflux", 0.0, 1e4), ("total_exposure_time", 1.0, 100.0), ("exposure_count", 1.0, 5.0), ("psf_footprint", 0.1, 50.0),
        ("sky", 0.1, 100.0), ("zp", 0.1, 10.0), ("readout_noise", 0.1, 20.0), ("dark_current", 0.1, 5.0))}  # fmt: skip
    which = h.pick("which", tuple(kw))
    d = h.real("d", 1e-2, 10.0)
    kw2 = dict(kw)
    kw2[which] = kw[which] + d
    a = poisson_bandflux_std(kw.pop("bandflux"), **kw)
    b = poisson_bandflux_std(kw2.pop("bandflux"), **kw2)
    h.check(b * b > a * a, f"the error grows with {which}")
    h.cover("end")


def base_cols(n):
    return {"ra": [10.0 * i for i in range(n)], "dec": [1.0 * i for i in range(n)], "time": [float(i) for i in range(n)]}


INDEX = ([0, 1, 2], [2, 1, 0], [1, 0], [2, 0], [1, 1], [2])


def opsim(h):
    """LSST-like: the error of each flux comes from the row it was observed in."""
    from lightcurvelynx.obstable.opsim import OpSim

    n = 3
    seeing, sb, zp = h.reals("seeing", n, 0.3, 3.0), h.reals("sb", n, 15.0, 25.0), h.reals("zp", n, 0.1, 10.0)
    texp, nexp = h.reals("exptime", n, 1.0, 60.0), [1, 2, 3]
    names = h.pick("names", ("standard", "opsim"))
    tab = pd.DataFrame({**base_cols(n), "seeing": h.arr(seeing), "skybrightness": h.arr(sb), "zp": h.arr(zp), "exptime": h.arr(texp), "nexposure": nexp})
    if names == "opsim":
        tab = tab.rename(columns={k: OpSim._default_colnames[k] for k in tab.columns if k in OpSim._default_colnames})
    tab.index = [5, 0, 1]
    given = h.pick("given", (False, True))
    kw = {k: h.real(k, lo, hi) for k, lo, hi in (("read_noise", 1.0, 20.0), ("dark_current", 0.1, 3.0), ("pixel_scale", 0.1, 2.0))} if given else {}
    ot = OpSim(tab, colmap={} if names == "standard" else None, **kw)
    rd, dk, px = (kw.get("read_noise", 8.8), kw.get("dark_current", 0.2), kw.get("pixel_scale", 0.2))
    rows = list(range(n))
    if h.pick("filtered", (False, True)):
        ot.filter_rows([1, 2])
        rows = [1, 2]
        idx = h.pick("idx", ([0, 1], [1, 0]))
    else:
        idx = h.pick("idx", INDEX)
    f = h.reals("flux", len(idx), 0.0, 1e4)
    err = h.flat(ot.bandflux_error_point_source(h.arr(f), np.array(idx)))
    h.same(len(err), len(idx), "one error per flux")
    for e, k, fl in zip(err, idx, f):
        r = rows[k]
        area = AREA * (seeing[r] / px) * (seeing[r] / px)
        sky = h.exp10(-0.4 * (sb[r] - 31.4)) * px * px / zp[r]
        want = fl * zp[r] + zp[r] * zp[r] * area * (sky + rd * rd * nexp[r] + dk * texp[r])
        h.close1(e * e, want, "the error of the row's conditions", rtol=2e-6, atol=1e-6)
    h.cover("end")


def ztf(h):
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    n = 3
    sky, fwhm, texp, zp = h.reals("sky", n, 50.0, 300.0), h.reals("fwhm", n, 1.0, 4.0), h.reals("exptime", n, 10.0, 60.0), h.reals("zp", n, 0.1, 10.0)
    tab = pd.DataFrame({**base_cols(n), "sky": h.arr(sky), "fwhm": h.arr(fwhm), "exptime": h.arr(texp), "zp": h.arr(zp)})
    tab.index = [4, 2, 0]
    given = h.pick("given", (False, True))
    kw = {k: h.real(k, lo, hi) for k, lo, hi in (("read_noise", 1.0, 20.0), ("dark_current", 0.1, 3.0), ("gain", 1.0, 10.0))} if given else {}
    ot = ZTFObsTable(tab, colmap={}, **kw)
    rd, dk, gain = kw.get("read_noise", 8.0), kw.get("dark_current", 0.0), kw.get("gain", 6.2)
    idx = h.pick("idx", INDEX)
    f = h.reals("flux", len(idx), 0.0, 1e4)
    err = h.flat(ot.bandflux_error_point_source(h.arr(f), np.array(idx)))
    h.same(len(err), len(idx), "one error per flux")
    for e, r, fl in zip(err, idx, f):
        want = fl * zp[r] + zp[r] * zp[r] * AREA * fwhm[r] * fwhm[r] * (sky[r] * gain + rd * rd + dk * texp[r])
        h.close1(e * e, want, "the error of the row's conditions", rtol=2e-6, atol=1e-6)
    h.cover("end")


def fake(h):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    n = 3
    fil = np.array(["g", "r", "g"])
    idx = h.pick("idx", INDEX)
    f = h.reals("flux", len(idx), 0.0, 1e4)
    mode = h.pick("mode", ("constant", "per band", "model"))
    a, b = h.reals("v", 2, 0.1, 10.0)
    tab = pd.DataFrame({**base_cols(n), "filter": fil})
    tab.index = [1, 2, 0]
    zp = {"g": h.real("zg", 0.1, 10.0), "r": h.real("zr", 0.1, 10.0)}
    if mode != "model":
        ot = FakeObsTable(tab, zp_per_band=zp, const_flux_error=a if mode == "constant" else {"g": a, "r": b})
        err = h.flat(ot.bandflux_error_point_source(h.arr(f), np.array(idx)))
        h.same(len(err), len(idx), "one error per flux")
        for e, r in zip(err, idx):
            h.close1(e, a if mode == "constant" or fil[r] == "g" else b, "the constant error of the band")
    else:
        rd, dk, t, sky, fp = (h.real(k, lo, hi) for k, lo, hi in (("rd", 0.0, 20.0), ("dk", 0.0, 3.0), ("t", 1.0, 60.0), ("sky", 0.0, 50.0), ("fp", 0.5, 30.0)))
        nexp = h.pick("nexp", (1, 2))
        ot = FakeObsTable(tab, zp_per_band=zp, read_noise=rd, dark_current=dk, exptime=t, sky=sky, psf_footprint={"g": fp, "r": 2.0 * fp}, nexposure=nexp)
        err = h.flat(ot.bandflux_error_point_source(h.arr(f), np.array(idx)))
        h.same(len(err), len(idx), "one error per flux")
        for e, r, fl in zip(err, idx, f):
            z, area = zp[str(fil[r])], fp * (1.0 if fil[r] == "g" else 2.0)
            want = fl * z + z * z * area * (sky + rd * rd * nexp + dk * t)
            h.close1(e * e, want, "the error of the row's conditions", rtol=2e-6, atol=1e-6)
    h.cover("end")


ROMAN = {"F129": (0.0, 1.0, 0.5, 0.3), "F158": (1.0, 2.0, 0.25, 0.6)}


def roman_patches(h_store):
    def patches(symbolic):
        import lightcurvelynx.obstable.roman_obstable as m

        bands = list(ROMAN)
        col = lambda k: [ROMAN[b][k] + 20.0 * (k == 0) + 5.0 for b in bands]  # noqa: E731
        char = {
            "psf_table": pd.DataFrame({"Filter": bands, "N_Eff_Pix": col(1)}),
            "zp_table": pd.DataFrame({"element": bands, "ABMag": col(0)}),
            "thermal_table": pd.DataFrame({"filter": bands, "rate": col(2)}),
            "zodiacal_min_table": pd.DataFrame({"filter": bands, "rate": col(3)}),
        }
        ma = pd.DataFrame({"MATableNumber": [1001, 1002], "Exptime": [60.8, 304.0]})
        return c07.patches(symbolic) + [(m, "_get_roman_char", lambda: char), (m, "_get_ma_table", lambda p=None: ma)]

    return patches


def roman(h):
    from lightcurvelynx.obstable.roman_obstable import RomanObsTable

    bands = [h.pick(f"b{i}", tuple(ROMAN)) for i in range(3)]
    mats = [1001, 1002, 1001]
    passes = h.pick("passes", ([1, 1, 2], [4, 2, 4]))
    tab = pd.DataFrame({"RA": [1.0, 2.0, 3.0], "DEC": [0.0, 1.0, 2.0], "BANDPASS": bands, "MA_TABLE_NUMBER": mats, "PASS": passes})
    cols = list(tab.columns)
    zodi = h.real("zodi", 1.0, 7.0)
    dark = h.real("dark", 0.0, 1.0)
    ot = RomanObsTable(tab, zodi_level=zodi, dark_current=dark)
    h.same(list(tab.columns), cols, "the given table is not changed")
    idx = h.pick("idx", INDEX)
    f = h.reals("flux", len(idx), 0.0, 1e4)
    err = h.flat(ot.bandflux_error_point_source(h.arr(f), np.array(idx)))
    h.same(len(err), len(idx), "one error per flux")
    order = sorted(set(passes))
    times = h.flat(ot["time"].to_numpy())
    for i in range(3):
        h.close1(times[i], 61304.0 + 5.0 * order.index(passes[i]), "the time of the pass")
    for e, r, fl in zip(err, idx, f):
        mag, area, th, zd = (ROMAN[bands[r]][k] + 20.0 * (k == 0) + 5.0 for k in range(4))
        t = 60.8 if mats[r] == 1001 else 304.0
        z = 10 ** (-0.4 * (mag - 31.4)) / t
        g = t / 3.04
        rd2 = 25.0 + 3072.0 * (g - 1) / g / (g + 1)
        want = fl * z + z * z * (rd2 + area * (t * (zodi * zd + th) + dark * t))
        h.close1(e * e, want, "the error of the row's conditions", rtol=2e-6, atol=1e-9)
    h.cover("end")


def noise(h):
    """The noisy flux is the flux plus the error times a standard normal draw."""
    from lightcurvelynx.astro_utils.noise_model import apply_noise

    n = h.pick("n", (1, 3))
    f, e = h.reals("flux", n, -10.0, 1e4), h.reals("err", n, 0.0, 100.0)
    rng = ScriptedRNG(h, "g")
    out = apply_noise(h.arr(f), h.arr(e), rng=rng)
    z = [d[1] for d in rng.log]
    h.same((h.shape(out), len(z)), ((n,), n), "one draw per flux")
    for i in range(n):
        h.close1(out[i], f[i] + e[i] * z[i], "flux plus error times the draw")
    h.cover("end")


for fn in (poisson, monotone, opsim, ztf, fake, roman, noise):
    fn.must_cover = ("end",)


def cases(tier):
    p = dict(patches=c07.patches)
    return [
        Case("poisson", poisson, bounds="2 observations, all conditions symbolic"),
        Case("monotone", monotone, bounds="each of 8 conditions increased by a symbolic step"),
        Case("opsim", opsim, warm=False, bounds="3 rows with unordered labels, row filter, 6 index lists", **p),
        Case("ztf", ztf, bounds="3 rows, 6 index lists", **p),
        Case("fake-survey", fake, bounds="3 rows, 6 index lists, constant, per-band and modelled errors", **p),
        Case("roman", roman, bounds="3 rows in 2 bands, stand-in characterization tables", patches=roman_patches(None)),
        Case("apply-noise", noise, bounds="1 or 3 fluxes"),
    ]
