"""Zero points of the surveys, limiting magnitudes, and detection efficiencies."""

import numpy as np
import pandas as pd

from symx.run import Case

from . import c07
from .c09 import AREA, base_cols

EXT = {"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095}
ZPS = {"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818}


def electron(h):
    """Magnitude and flux that give one electron, per band, airmass and exposure time."""
    from lightcurvelynx.astro_utils.zeropoint import flux_electron_zeropoint, magnitude_electron_zeropoint

    custom = h.pick("custom", (False, True))
    bands = [h.pick(f"b{i}", ("u", "g", "r", "i", "z", "y") if not custom else ("A", "B")) for i in range(2)]
    ext, zps = EXT, ZPS
    if custom:
        ext = dict(zip("AB", h.reals("ext", 2, -1.0, 0.0)))
        zps = dict(zip("AB", h.reals("zpm", 2, 20.0, 30.0)))
    am, t = h.reals("airmass", 2, 1.0, 3.0), h.reals("t", 2, 1.0, 100.0)
    m = magnitude_electron_zeropoint(band=np.array(bands), airmass=h.arr(am), exptime=h.arr(t), instr_zp=zps if custom else None, ext_coeff=ext if custom else None)
    f = flux_electron_zeropoint(band=np.array(bands), airmass=h.arr(am), exptime=h.arr(t), instr_zp_mag=zps if custom else None, ext_coeff=ext if custom else None)
    h.same((h.shape(m), h.shape(f)), ((2,), (2,)), "one zero point per observation")
    for i, b in enumerate(bands):
        want = zps[b] + ext[b] * (am[i] - 1.0) + 2.5 * h.log10(t[i])
        h.close1(m[i], want, "zero point of the band, airmass and exposure time", atol=1e-6)
        h.close1(f[i], h.exp10(-0.4 * (want - 31.4)), "the flux of that magnitude", rtol=1e-5)
    h.cover("end")


def opsim_zp(h):
    """A table without zero points derives them row by row from its own columns and survey values."""
    from lightcurvelynx.obstable.opsim import OpSim

    n = 3
    bands = [h.pick(f"b{i}", ("g", "r")) for i in range(n)]
    am, t = h.reals("airmass", n, 1.0, 3.0), h.reals("t", n, 1.0, 100.0)
    tab = pd.DataFrame({**base_cols(n), "filter": bands, "airmass": h.arr(am), "exptime": h.arr(t)})
    tab.index = [2, 0, 1]
    custom = h.pick("custom", ("none", "both", "zp", "ext", "whole"))
    ext, zps = EXT, ZPS
    kw = {}
    if custom in ("ext", "both"):
        kw["ext_coeff"] = ext = dict(zip("gr", h.reals("ext", 2, -1.0, 0.0)))
    if custom in ("zp", "both"):
        kw["zp_per_sec"] = zps = dict(zip("gr", h.reals("zpm", 2, 20.0, 30.0)))
    if custom == "whole":  # one of the coefficients is an integer
        kw["zp_per_sec"] = zps = {"g": 25, "r": 25.75}
        kw["ext_coeff"] = ext = {"g": -1, "r": -0.25}
    ot = OpSim(tab, colmap={}, **kw)
    zp = h.flat(ot["zp"].to_numpy())
    for i, b in enumerate(bands):
        mag = zps[b] + ext[b] * (am[i] - 1.0) + 2.5 * h.log10(t[i])
        h.close1(zp[i], h.exp10(-0.4 * (mag - 31.4)), "zero point of the row", rtol=1e-5)
    own = h.reals("own", n, 0.1, 5.0)
    ot2 = OpSim(tab.assign(zp=h.arr(own)), colmap={}, **kw)
    for g, w in zip(h.flat(ot2["zp"].to_numpy()), own):
        h.close1(g, w, "zero points of the table are kept")
    for miss in ("filter", "airmass", "exptime"):
        h.check(h.raises(lambda miss=miss: OpSim(tab.drop(columns=[miss]), colmap={}, **kw), (ValueError, KeyError)), "not derivable without the columns")
    h.cover("end")


def ztf_limit(h):
    """A source at the limiting magnitude is detected at five sigma, whatever the detector values."""
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    n = 2
    lim, sky, fwhm, t = h.reals("maglim", n, 18.0, 22.0), h.reals("sky", n, 50.0, 300.0), h.reals("fwhm", n, 1.0, 4.0), h.reals("t", n, 10.0, 60.0)
    tab = pd.DataFrame({**base_cols(n), "maglim": h.arr(lim), "sky": h.arr(sky), "fwhm": h.arr(fwhm), "exptime": h.arr(t)})
    kw = {}
    if h.pick("given", (False, True)):
        kw = {"gain": h.real("gain", 1.0, 10.0), "read_noise": h.real("rn", 1.0, 20.0), "dark_current": h.real("dk", 0.01, 2.0)}
    ot = ZTFObsTable(tab, colmap={}, **kw)
    from lightcurvelynx.astro_utils.mag_flux import mag2flux
    from lightcurvelynx.astro_utils.zeropoint import calculate_zp_from_maglim

    zp = h.flat(ot["zp"].to_numpy())
    gain, rn, dk = kw.get("gain", 6.2), kw.get("read_noise", 8.0), kw.get("dark_current", 0.0)
    for i in range(n):
        h.check(zp[i] > 0, "a positive zero point")
        # the five-sigma equation itself is the case zp-from-maglim
        want = calculate_zp_from_maglim(maglim=lim[i], sky=sky[i], fwhm=fwhm[i], gain=gain, readnoise=rn, darkcurrent=dk, exptime=t[i], nexposure=1)
        h.close1(zp[i], mag2flux(want), "the zero point of the row's conditions and the survey's detector", rtol=1e-5)
    own = h.reals("own", n, 0.1, 5.0)
    ot2 = ZTFObsTable(tab.assign(zp=h.arr(own)), colmap={}, **kw)
    for g, w in zip(h.flat(ot2["zp"].to_numpy()), own):
        h.close1(g, w, "zero points of the table are kept")
    h.cover("end")


def maglim(h):
    """zp from maglim: the electrons at the limit solve the five-sigma equation."""
    from lightcurvelynx.astro_utils.zeropoint import calculate_zp_from_maglim

    lim, sky, fwhm, gain, rn, dk, t = (h.real(k, lo, hi) for k, lo, hi in (
        ("maglim", 15.0, 25.0), ("sky", 1.0, 500.0), ("fwhm", 0.5, 5.0), ("gain", 0.5, 10.0), ("rn", 0.5, 20.0), ("dk", 0.01, 2.0), ("t", 1.0, 100.0)))  # fmt: skip
    nexp = h.pick("nexposure", (1, 2, 5))
    zp = calculate_zp_from_maglim(maglim=lim, sky=sky, fwhm=fwhm, gain=gain, readnoise=rn, darkcurrent=dk, exptime=t, nexposure=nexp)
    N = h.exp10(0.4 * (zp - lim))
    B = AREA * fwhm * fwhm * (sky * gain + rn * rn * nexp + dk * t * nexp)
    h.close1(N * N, 25.0 * (N + B), "five sigma at the limiting magnitude", rtol=1e-3)
    d = h.real("d", 0.1, 2.0)
    z2 = calculate_zp_from_maglim(maglim=lim + d, sky=sky, fwhm=fwhm, gain=gain, readnoise=rn, darkcurrent=dk, exptime=t, nexposure=nexp)
    h.close1(z2 - zp, d, "a deeper limit shifts the zero point by the same amount", atol=1e-6)
    h.cover("end")


def efficiency(h):
    from lightcurvelynx.astro_utils.obs_utils import phot_eff_function, spec_eff_function

    s = h.reals("snr", 3, -10.0, 50.0)
    for v in s:
        h.assume(h.abs(v - 5.0) > 1e-9)
    e = phot_eff_function(h.arr(s))
    h.same(h.shape(e), (3,), "one efficiency per source")
    for v, g in zip(s, h.flat(e)):
        h.close1(g, h.ite(v > 5.0, 1.0, 0.0), "detected exactly above five sigma")
    h.close1(h.flat(phot_eff_function(5.0))[0], 0.0, "not at five sigma")
    m = h.sorted_reals("mag", 2, 18.0, 26.0, gap=1e-3)
    p = h.flat(spec_eff_function(h.arr(m)))
    h.check(h.And(p[0] > p[1], p[1] > 0, p[0] < 1), "the spectroscopic efficiency falls with magnitude, between 0 and 1")
    for v, g in zip(m, p):
        h.close1(g * (1.0 + h.exp(2.36 * v - 51.9)), 1.0, "logistic in the peak magnitude", atol=1e-6)
    h.cover("end")


for fn in (electron, opsim_zp, ztf_limit, maglim, efficiency):
    fn.must_cover = ("end",)


def cases(tier):
    p = dict(patches=c07.patches)
    return [
        Case("electron-zero-point", electron, bounds="2 observations in 6 bands or 2 custom bands"),
        Case("opsim-zero-points", opsim_zp, bounds="3 rows with unordered labels", **p),
        Case("ztf-five-sigma", ztf_limit, bounds="2 rows, symbolic detector values", **p),
        Case("zp-from-maglim", maglim, bounds="all conditions symbolic"),
        Case("efficiency", efficiency, bounds="3 signal-to-noise ratios, 2 magnitudes"),
    ]
