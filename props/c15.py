"""Passbands: processing of the transmission table and the band flux."""

import numpy as np

from symx.run import Case

# wavelengths in Angstrom and the requested step
GRIDS = {
    "even": ([400.0, 405.0, 410.0, 415.0], 5.0),
    "coarse-step": ([400.0, 404.0, 410.0, 413.0], 5.0),
    "finer-step": ([400.0, 406.0, 410.0], 2.5),
    "one-step": ([400.0, 403.0, 409.0], 7.0),
    "as-loaded": ([400.0, 404.0, 410.0, 413.0], None),
}


def lin(xs, ys, v):
    for i in range(1, len(xs)):
        if v <= xs[i] + 1e-9 or i == len(xs) - 1:
            return ys[i - 1] + (ys[i] - ys[i - 1]) / (xs[i] - xs[i - 1]) * (v - xs[i - 1])


def resampled(xs, ys, step):
    """The table on the even grid over its full range with at most the number of steps that fit."""
    if step is None or np.allclose(np.diff(xs), step):
        return list(xs), list(ys)
    n = int((xs[-1] - xs[0]) / step)
    gx = [xs[0] + k * (xs[-1] - xs[0]) / n for k in range(n + 1)]
    return gx, [lin(xs, ys, v) for v in gx]


def trap(ys, xs):
    return sum(0.5 * (ys[i] + ys[i - 1]) * (xs[i] - xs[i - 1]) for i in range(1, len(xs)))


def make(h, xs, ys, **kw):
    from lightcurvelynx.astro_utils.passbands import Passband

    return Passband(h.arr([[x, y] for x, y in zip(xs, ys)]), "S", kw.pop("filter_name", "g"), **kw)


def processing(grid):
    """Units, resampling and normalization; the band flux of any flux density."""

    def fn(h):
        xs, step = GRIDS[grid]
        units = h.pick("units", ("A", "nm"))
        T = h.reals("T", len(xs), 0.01, 1.0)
        table = h.arr([[x / 10.0 if units == "nm" else x, t] for x, t in zip(xs, T)])
        before = h.flat(table)
        from lightcurvelynx.astro_utils.passbands import Passband

        pb = Passband(table, "S", "g", delta_wave=step, trim_quantile=None, units=units)
        for a, b in zip(h.flat(table), before):
            h.close1(a, b, "the given table is not changed")
        h.same((pb.survey, pb.filter_name, pb.full_name), ("S", "g", "S_g"), "names")
        gx, gy = resampled(xs, T, step)
        h.same(len(pb.waves), len(gx), "size of the grid")
        for a, b in zip(h.flat(pb.waves), gx):
            h.close1(a, b, "wavelength grid")
        D = trap([y / x for x, y in zip(gx, gy)], gx)
        tab = pb.processed_transmission_table
        h.same(h.shape(tab), (len(gx), 2), "two columns")
        phi = h.flat(tab[:, 1])
        for k, x in enumerate(gx):
            h.close1(h.flat(tab[:, 0])[k], x, "wavelengths of the normalized table")
            h.close1(phi[k] * D * 1e3, gy[k] / x * 1e3, "transmission per wavelength, normalized", rtol=1e-5)
        h.close1(trap(phi, gx), 1.0, "unit area", rtol=1e-5)
        F = [h.reals(f"F{i}_", len(gx), 0.0, 10.0) for i in range(2)]
        fa = h.arr(F)
        bf = pb.fluxes_to_bandflux(fa)
        h.same(h.shape(bf), (2,), "one band flux per time")
        for i in range(2):
            want = trap([f * p for f, p in zip(F[i], phi)], gx)
            h.close1(h.flat(bf)[i], want, "the integral of flux density and normalized transmission", rtol=1e-5, atol=1e-7)
        b3 = pb.fluxes_to_bandflux(fa.reshape(2, 1, len(gx)))
        h.same(h.shape(b3), (2, 1), "samples by times")
        for a, b in zip(h.flat(b3), h.flat(bf)):
            h.close1(a, b, "samples one by one", rtol=1e-7, atol=1e-9)
        f = h.real("const", 0.0, 10.0)
        h.close1(h.flat(pb.fluxes_to_bandflux(h.arr([[f] * len(gx)])))[0], f, "a constant flux density has that band flux", rtol=1e-5, atol=1e-7)
        h.check(h.raises(lambda: pb.fluxes_to_bandflux(h.arr([[f] * (len(gx) + 1)])), ValueError), "other grids refused")
        h.check(h.raises(lambda: pb.fluxes_to_bandflux(h.arr([f] * len(gx))), ValueError), "one dimension refused")
        h.cover("end")

    return fn


def reprocess(h):
    """Processing again starts from the loaded table; equality compares the processed tables."""
    xs, _ = GRIDS["coarse-step"]
    T = h.reals("T", len(xs), 0.01, 1.0)
    a = make(h, xs, T, delta_wave=5.0, trim_quantile=None)
    first = h.pick("first", (2.0, None))
    second = h.pick("second", (5.0, None, 13.0))
    a.process_transmission_table(first, None)
    a.process_transmission_table(second, None)
    gx, gy = resampled(xs, T, second)
    D = trap([y / x for x, y in zip(gx, gy)], gx)
    h.same(len(a.waves), len(gx), "size of the grid")
    for k, x in enumerate(gx):
        h.close1(h.flat(a.waves)[k], x, "wavelength grid")
        h.close1(h.flat(a.processed_transmission_table[:, 1])[k] * D * 1e3, gy[k] / x * 1e3, "processed from the loaded table", rtol=1e-5)
    f = h.reals("F", len(gx), 0.0, 10.0)
    h.close1(h.flat(a.fluxes_to_bandflux(h.arr([f])))[0] * D * 1e3, trap([v * y / x for v, x, y in zip(f, gx, gy)], gx) * 1e3, "band flux on the new grid", rtol=1e-5, atol=1e-5)
    h.cover("end")


def scaled(h):
    """Passbands that differ by a factor in transmission are the same; others differ."""
    xs, step = GRIDS["even"]
    T, k = h.reals("T", 4, 0.1, 1.0), h.real("k", 0.5, 2.0)
    a, b = make(h, xs, T, delta_wave=step, trim_quantile=None), make(h, xs, [k * t for t in T], delta_wave=step, trim_quantile=None)
    for x, y in zip(h.flat(a.processed_transmission_table), h.flat(b.processed_transmission_table)):
        h.close1(x, y, "the scale of the transmission does not matter", rtol=1e-5)
    c = make(h, [x + 5.0 for x in xs], T, delta_wave=step, trim_quantile=None)
    h.check(h.Not(a == c), "other wavelengths are another passband")
    d = make(h, xs[:3], T[:3], delta_wave=step, trim_quantile=None)
    h.check(h.Not(a == d), "another size is another passband")
    h.cover("end")


def trimming(n, q):
    """Trimming keeps a contiguous part and cuts the tails at the quantile to within a grid step."""

    def fn(h):
        xs = [400.0 + 5.0 * i for i in range(n)]
        T = h.reals("T", n, 0.0, 1.0)
        h.assume(sum(T) > 0.05)
        trimmed = False
        try:
            pb = make(h, xs, T, delta_wave=5.0, trim_quantile=q)
        except ValueError:
            h.cover("refused")  # a single grid point cannot be normalized
            return
        w = [float(v) for v in h.flat(pb.waves)]
        lo = xs.index(w[0])
        hi = lo + len(w) - 1
        h.same(w, xs[lo : hi + 1], "a contiguous part of the grid")
        A = trap(T, xs)

        def upto(i):
            return trap(T[: i + 1], xs[: i + 1]) if i > 0 else 0.0

        eps = 1e-9
        h.check(upto(lo) <= q * A + eps, "at most the quantile is cut below")
        if lo + 2 <= n - 1 and lo > 0:
            h.check(upto(lo + 2) >= q * A - eps, "the lower tail is cut")
        if hi < n - 1:
            h.check(A - upto(hi + 1) <= q * A + eps, "at most the quantile is cut above, to within a step")
        if hi > 0:
            h.check(A - upto(hi - 1) >= q * A - eps, "the upper tail is cut")
        D = trap([t / x for t, x in zip(T, xs)][lo : hi + 1], w)
        for k in range(lo, hi + 1):
            h.close1(h.flat(pb.processed_transmission_table[:, 1])[k - lo] * D, T[k] / xs[k], "normalized after trimming", rtol=1e-5, atol=1e-7)
        if lo > 0 or hi < n - 1:
            trimmed = True
            h.cover("trimmed")
        if not trimmed:
            h.cover("whole")

    return fn


def whole(h):
    """Tables of whole numbers, with wavelengths given once, twice or three times."""
    from lightcurvelynx.astro_utils.passbands import Passband

    T = [h.int(f"T{i}", 1, 100) for i in range(5)]
    times = h.pick("times", ((1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 1, 2), (1, 1, 3)))
    units = h.pick("units", ("A", "nm"))
    k = 0.1 if units == "nm" else 1.0
    rows, ys, i = [], [], 0
    for x, m in zip((400, 450, 500), times):
        rows += [[x // 10 if units == "nm" else x, t] for t in T[i : i + m]]
        ys.append(sum(T[i + 1 : i + m], T[i]) / m)
        i += m
    table = h.arr(rows)
    pb = Passband(table, "S", "g", delta_wave=h.pick("dw", (50.0, None)), trim_quantile=None, units=units)
    for a, b in zip(h.flat(table), [v for r in rows for v in r]):
        h.close1(a, b, "the given table is not changed")
    gx = [400.0, 450.0, 500.0]
    h.same([float(v) for v in h.flat(pb.waves)], gx, "one point per wavelength")
    D = trap([y / x for x, y in zip(gx, ys)], gx)
    for k in range(3):
        h.close1(h.flat(pb.processed_transmission_table[:, 1])[k] * D * 1e3, ys[k] / gx[k] * 1e3, "the average of what is given for the wavelength", rtol=1e-5)
    h.cover("end")


def invalid(h):
    """Duplicates are averaged; unordered, empty or dark tables and bad settings are refused."""
    from lightcurvelynx.astro_utils.passbands import Passband

    T = h.reals("T", 4, 0.01, 1.0)
    dup = h.pick("dup", (0, 1, 2))
    xs = [[400.0, 400.0, 405.0, 410.0], [400.0, 405.0, 405.0, 410.0], [400.0, 405.0, 410.0, 410.0]][dup]
    table = h.arr([[x, t] for x, t in zip(xs, T)])
    before = h.flat(table)
    pb = Passband(table, "S", "g", delta_wave=h.pick("dw", (5.0, None)), trim_quantile=None)
    for a, b in zip(h.flat(table), before):
        h.close1(a, b, "the given table is not changed")
    ys = [[0.5 * (T[0] + T[1]), T[2], T[3]], [T[0], 0.5 * (T[1] + T[2]), T[3]], [T[0], T[1], 0.5 * (T[2] + T[3])]][dup]
    gx = [400.0, 405.0, 410.0]
    h.same([float(v) for v in h.flat(pb.waves)], gx, "one point per wavelength")
    D = trap([y / x for x, y in zip(gx, ys)], gx)
    for k in range(3):
        h.close1(h.flat(pb.processed_transmission_table[:, 1])[k] * D * 1e3, ys[k] / gx[k] * 1e3, "duplicates averaged", rtol=1e-5)
    w = h.reals("w", 3, 100.0, 200.0)
    for i in range(2):
        h.assume(h.abs(w[i + 1] - w[i]) > 0.01)
    ordered = h.true(h.And(w[0] < w[1], w[1] < w[2]))
    refused = h.raises(lambda: make(h, w, T[:3], delta_wave=None, trim_quantile=None), ValueError)
    h.same(refused, not ordered, "refused exactly when not ordered")
    h.check(h.raises(lambda: make(h, gx, [0.0] * 3, trim_quantile=None), ValueError), "no transmission")
    q = h.real("q", -1.0, 1.0)
    if h.true(h.Or(q < 0, q >= 0.5)):
        h.check(h.raises(lambda: make(h, gx, T[:3], trim_quantile=q), ValueError), "quantile out of range")
    h.check(h.raises(lambda: make(h, gx, T[:3], units="um"), ValueError), "unknown unit")
    h.check(h.raises(lambda: Passband(np.array([[400.0, 0.5, 1.0], [405.0, 0.5, 1.0]]), "S", "g"), ValueError), "three columns")
    h.cover("end")


def symbolic_waves(h):
    """As loaded, with any wavelengths: constant flux, and each point weighs transmission over wavelength."""
    w = h.sorted_reals("w", 3, 100.0, 1000.0, gap=1.0)
    T = h.reals("T", 3, 0.1, 1.0)
    pb = make(h, w, T, delta_wave=None, trim_quantile=None)
    phi = h.flat(pb.processed_transmission_table[:, 1])
    h.close1(phi[0] * T[1] * w[0], phi[1] * T[0] * w[1], "ratios of the weights", rtol=1e-5)
    h.close1(phi[2] * T[1] * w[2], phi[1] * T[2] * w[1], "ratios of the weights", rtol=1e-5)
    h.close1(trap(phi, w), 1.0, "unit area", rtol=1e-5)
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (reprocess, scaled, invalid, symbolic_waves):
    _e(fn)


def _trim(n, q):
    f = trimming(n, q)
    f.must_cover = ("trimmed",)
    return f


def cases(tier):
    out = [Case(f"processing-{g}", _e(processing(g)), bounds=f"{len(GRIDS[g][0])} table rows, 2 times, Angstrom and nm") for g in GRIDS]
    out += [
        Case("reprocess", reprocess, bounds="two processings with other steps"),
        Case("same-or-different", scaled, bounds="4 table rows"),
        Case("trim-1%", _trim(4, 0.01), bounds="4 grid points"),
        Case("trim-30%", _trim(4, 0.3), bounds="4 grid points"),
        Case("whole-numbers", _e(whole), bounds="3 wavelengths given up to three times, any whole transmissions"),
        Case("invalid-tables", invalid, bounds="4 rows"),
        Case("any-wavelengths", symbolic_waves, bounds="3 rows at symbolic wavelengths"),
    ]
    if tier != "quick":
        out += [Case(f"trim-{q}-6", _trim(6, q), bounds="6 grid points", tier="thorough", time_limit=600) for q in (0.01, 0.2, 0.4)]
    return out
