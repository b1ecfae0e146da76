"""Photometric conversions: magnitudes, per-wavelength and per-frequency flux densities, electron zero points."""

import numpy as np
from astropy import units as u

from symx.run import Case

C_MS = 299792458.0


def mags(h):
    from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux

    m = h.sorted_reals("mag", 3, -5.0, 40.0, gap=1e-3)
    f = mag2flux(h.arr(m))
    h.same(h.shape(f), (3,), "mag2flux keeps the shape")
    back = flux2mag(f)
    for i in range(3):
        h.check(f[i] > 0, "the bandflux of a magnitude is positive")
        h.close1(back[i], m[i], "flux2mag(mag2flux(m)) = m", atol=1e-7)
    h.check(h.And(f[0] > f[1], f[1] > f[2]), "fainter magnitudes have smaller bandfluxes")
    d = h.real("d", 0.1, 10.0)
    h.close1(mag2flux(m[0] + d), f[0] * h.exp10(-0.4 * d), "a magnitude step d scales the flux by 10^(-0.4 d)")
    h.close1(mag2flux(m[0] + 5.0) * 100.0, f[0], "five magnitudes are a factor of 100")
    h.close1(mag2flux(8.9), 1e9, "AB magnitude 8.9 is 1 Jy")
    h.cover("end")


def fluxes(h):
    from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux

    f = h.reals("f", 2, 1e-3, 1e6)
    m = flux2mag(h.arr(f))
    back = mag2flux(m)
    for i in range(2):
        h.close1(back[i], f[i], "mag2flux(flux2mag(f)) = f")
    h.check(h.Implies(f[0] < f[1], m[0] > m[1]), "brighter sources have smaller magnitudes")
    h.check(h.Implies(f[0] == f[1], m[0] == m[1]), "equal fluxes have equal magnitudes")
    h.close1(flux2mag(f[0] * 10.0), m[0] - 2.5, "a factor of ten is 2.5 magnitudes", atol=1e-7)
    h.cover("end")


WU = {"AA": (u.AA, 1e-10), "nm": (u.nm, 1e-9), "um": (u.micron, 1e-6)}
FLAM = {
    "cgsA": (u.erg / u.second / u.cm**2 / u.AA, 1e7),  # erg/s/cm2/A -> W/m2/m
    "SI": (u.W / u.m**2 / u.m, 1.0),
}
FNU = {"nJy": (u.nJy, 1e-35), "Jy": (u.Jy, 1e-26), "cgsHz": (u.erg / u.second / u.cm**2 / u.Hz, 1e-3)}


def flam_fnu(shape, quick=False):
    def fn(h):
        from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu, fnu_to_flam

        wu, w_si = WU[h.pick("wave_unit", ["AA", "nm"] if quick else WU)]
        lu, l_si = FLAM["cgsA" if quick else h.pick("flam_unit", FLAM)]
        nu, n_si = FNU["nJy" if quick else h.pick("fnu_unit", FNU)]
        nt, nw = shape if isinstance(shape, tuple) else (0, shape)
        w = h.reals("w", nw, 0.1, 30000.0)
        # a scale keeping the numbers of the order of one in the output
        if nt:
            x = [h.reals(f"x{t}_", nw, -10.0, 10.0) for t in range(nt)]
        else:
            x = h.reals("x", nw, -10.0, 10.0)
        xa, wa = h.arr(x), h.arr(w)
        kw = dict(wave_unit=wu, flam_unit=lu, fnu_unit=nu)
        fnu = flam_to_fnu(xa, wa, **kw)
        flam = fnu_to_flam(xa, wa, **kw)
        if nt:
            h.same(h.shape(fnu), (nt, nw), "flam_to_fnu keeps the shape")
            h.same(h.shape(flam), (nt, nw), "fnu_to_flam keeps the shape")
        k1 = l_si * w_si**2 / C_MS / n_si
        k2 = n_si * C_MS / w_si**2 / l_si
        flat = [(x[t][i], fnu[t, i], flam[t, i], w[i]) for t in range(nt) for i in range(nw)] if nt else [
            (x[i], fnu[i], flam[i], w[i]) for i in range(nw)
        ]
        for v, a, b, wi in flat:
            h.close1(a / k1, v * wi * wi, "F_nu = F_lambda lambda^2 / c in the requested units", atol=1e-12)
            h.close1(b / k2 * wi * wi, v, "F_lambda = F_nu c / lambda^2 in the requested units", atol=1e-12)
        if nt:  # a matrix of wavelengths, one row per row of fluxes
            w2 = [h.reals(f"ww{t}_", nw, 0.1, 30000.0) for t in range(nt)]
            f2 = flam_to_fnu(xa, h.arr(w2), **kw)
            for t in range(nt):
                for i in range(nw):
                    h.close1(f2[t, i] / k1, x[t][i] * w2[t][i] * w2[t][i], "per-row wavelengths", atol=1e-12)
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


def flam_round(h):
    from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu, fnu_to_flam

    wu, w_si = WU[h.pick("wave_unit", WU)]
    kw = dict(wave_unit=wu, flam_unit=FLAM["cgsA"][0], fnu_unit=u.nJy)
    w = h.reals("w", 2, 0.1, 30000.0)
    x = h.reals("x", 2, -10.0, 10.0)
    a = fnu_to_flam(flam_to_fnu(h.arr(x), h.arr(w), **kw), h.arr(w), **kw)
    b = flam_to_fnu(fnu_to_flam(h.arr(x), h.arr(w), **kw), h.arr(w), **kw)
    for i in range(2):
        h.close1(a[i], x[i], "fnu_to_flam inverts flam_to_fnu")
        h.close1(b[i], x[i], "flam_to_fnu inverts fnu_to_flam")
    h.check(h.raises(lambda: flam_to_fnu(h.arr(x), h.arr(w + [w[0]]), **kw), ValueError), "mismatched sizes are refused")
    h.check(h.raises(lambda: fnu_to_flam(h.arr(x), h.arr(w + [w[0]]), **kw), ValueError), "mismatched sizes are refused")
    h.cover("end")


mags.must_cover = fluxes.must_cover = flam_round.must_cover = ("end",)


def cases(tier):
    r = [
        Case("magnitudes", mags, bounds="3 magnitudes in [-5, 40]"),
        Case("fluxes", fluxes, bounds="2 fluxes in [1e-3, 1e6] nJy"),
        Case("flam-fnu-1d", flam_fnu(2), bounds="2 wavelengths in [0.1, 3e4], all unit combinations"),
        Case("flam-fnu-2d", flam_fnu((2, 2)), bounds="2x2 fluxes, shared and per-row wavelengths"),
        Case("flam-fnu-roundtrip", flam_round, bounds="2 wavelengths"),
    ]
    for s in ((3, 3), (3, 2), (2, 3)):
        r += [Case("flam-fnu-%dx%d" % s, flam_fnu(s, quick=True), bounds="%dx%d fluxes, 2 unit combinations" % s)]
    if tier == "thorough":
        r += [Case("flam-fnu-3x3-units", flam_fnu((3, 3)), bounds="3x3 fluxes, all unit combinations", tier="thorough")]
    return r
