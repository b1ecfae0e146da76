"""Light curve templates: the model reproduces the data it was given."""

import numpy as np

from props.c15 import trap
from props.c17 import WAVES, group
from props.common import listed
from symx import arrays
from symx.run import Case

GAP = 0.05


def lin(h, ts, vs, q):
    """Linear interpolation between the points (q inside)."""
    want = vs[-1]
    for k in range(len(ts) - 2, -1, -1):
        s = (vs[k + 1] - vs[k]) / (ts[k + 1] - ts[k])
        want = h.ite(q < ts[k + 1], vs[k] + s * (q - ts[k]), want)
    return want


def expected(h, ts, vs, q, base):
    """The value at time q (in the time of the data): the curve inside, the baseline outside."""
    return h.ite(h.Or(q < ts[0], q > ts[-1]), base, lin(h, ts, vs, q))


def away(h, q, ts):
    for t in ts:
        h.assume(h.abs(q - t) > 1e-5)


def curve_input(h, cols, kind):
    """The same light curves as a dictionary of arrays or one table with a filter column."""
    if kind != "table":
        width = 3 if kind == "errors" else 2
        return {f: h.arr([[t, v, 0.1][:width] for t, v in zip(*cols[f])]) for f in cols}
    rows = [(t, v, f) for f in cols for t, v in zip(*cols[f])]
    rows = rows[::2] + rows[1::2] if len(cols) > 1 else rows
    per = {f: [r for r in rows if r[2] == f] for f in cols}
    per = {f: sorted(per[f], key=lambda r: [k for k, t in enumerate(cols[f][0]) if t is r[0]][0]) for f in cols}
    mixed = []
    while any(per.values()):
        for f in per:
            if per[f]:
                mixed.append(per[f].pop(0))
    a = np.empty((len(mixed), 3), dtype=object)
    for i, r in enumerate(mixed):
        a[i] = r
    return a.view(arrays.SymArr) if h.sym else a


def data(h):
    """Values at any time, from magnitudes or fluxes, with or without baselines, in every input form."""
    from lightcurvelynx.astro_utils.mag_flux import mag2flux
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    kind = h.pick("kind", ("dict", "errors", "table"))
    mags = h.pick("magnitudes", (False, True))
    cols = {}
    for f, n in (("g", 3), ("r", 2)):
        lo, hi = (18.0, 24.0) if mags else (-50.0, 50.0)
        cols[f] = (h.sorted_reals(f"t{f}", n, 10.0, 60.0, gap=GAP), h.reals(f"v{f}", n, lo, hi))
    lc0 = h.real("lc_t0", -5.0, 70.0)
    bl = None
    if h.pick("baseline", (False, True)):
        b = h.reals("b", 2, 18.0 if mags else -5.0, 24.0 if mags else 5.0)
        bl = dict(zip("gr", b))
    given = curve_input(h, cols, kind)
    d = LightcurveData(given, lc0, magnitudes_in=mags, baseline=bl)
    h.same(sorted(d.filters), ["g", "r"], "one light curve per filter")
    if bl is not None:
        for f, v in zip("gr", b):
            h.close1(bl[f], v, "the caller's baselines are not changed")
    if kind != "table":
        for f in cols:
            for k, (t, v) in enumerate(zip(*cols[f])):
                h.close1(given[f][k, 0], t, "the caller's times are not changed")
                h.close1(given[f][k, 1], v, "the caller's values are not changed")
    q = h.reals("q", 2, -80.0, 80.0)  # time since the reference epoch
    for f in cols:
        ts, vs = cols[f]
        if mags:
            vs = [mag2flux(v) for v in vs]
        base = 0.0 if bl is None else (mag2flux(bl[f]) if mags else bl[f])
        for x in q:
            away(h, x + lc0, (ts[0], ts[-1]))
        got = h.flat(d.evaluate_sed(h.arr(q), f))
        h.same(len(got), 2, "one value per time")
        for x, g in zip(q, got):
            if mags:  # the branch is decided so that the powers of ten stay apart
                if h.true(h.Or(x + lc0 < ts[0], x + lc0 > ts[-1])):
                    h.close1(g, base, "the baseline outside the light curve", rtol=1e-5, atol=1e-6)
                else:
                    h.close1(g, lin(h, ts, vs, x + lc0), "the light curve at the time", rtol=1e-5, atol=1e-4)
            else:
                h.close1(g, expected(h, ts, vs, x + lc0, base), "the light curve at the time, the baseline outside", rtol=1e-5, atol=1e-4)
    h.check(h.raises(lambda: d.evaluate_sed(h.arr(q), "z"), ValueError), "unknown filters are refused")
    h.cover("end")


def points(h):
    """The data points themselves, including the first and the last, are returned exactly."""
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    whole = h.pick("whole", (False, True))
    if whole:  # tables of integers
        mags = h.pick("magnitudes", (False, True))
        ts, vs = [1, 2, 4], ([20, 21, 19] if mags else [5, 9, 2])
        a = np.array([[t, v] for t, v in zip(ts, vs)])
        lc0 = h.pick("lc_t0", (0, 0.5))
    else:
        mags = False
        ts, vs = h.sorted_reals("t", 3, 0.0, 50.0, gap=GAP), h.reals("v", 3, -50.0, 50.0)
        a = h.arr([[t, v] for t, v in zip(ts, vs)])
        lc0 = 0.0
    d = LightcurveData({"g": a}, lc0, magnitudes_in=mags)
    got = h.flat(d.evaluate_sed(h.arr([t - lc0 for t in ts]), "g"))
    from lightcurvelynx.astro_utils.mag_flux import mag2flux

    for g, v in zip(got, vs):
        h.close1(g, mag2flux(float(v)) if mags else v, "the data point", rtol=1e-5, atol=1e-4)
    h.cover("end")


def periodic(h):
    """A periodic light curve repeats for ever, before and after the reference time."""
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    P = 3.5
    start = h.pick("start", (0.0, 10.0))
    m1, m2 = h.sorted_reals("m", 2, 0.2, 3.2, gap=GAP)
    v = h.reals("v", 3, -50.0, 50.0)
    w = h.reals("w", 3, -50.0, 50.0)
    ts = [0.0, m1, m2, P]
    lcs = {"g": h.arr([[start + t, x] for t, x in zip(ts, v + v[:1])]), "r": h.arr([[start + t, x] for t, x in zip(ts, w + w[:1])])}
    ref = h.pick("ref", ("first", "automatic", "wrong"))
    if ref == "wrong":
        h.check(h.raises(lambda: LightcurveData(lcs, start + 1.0, periodic=True), ValueError), "the reference must be the first time")
        h.cover("end")
        return
    d = LightcurveData(lcs, start if ref == "first" else 0.0, periodic=True, baseline={"g": 99.0, "r": 99.0})
    h.close1(d.period, P, "the period")
    h.close1(d.lc_data_t0, start, "the reference epoch")
    n = h.pick("cycle", (-2, -1, 0, 1, 3))
    u = h.real("u", 1e-3, P - 1e-3)
    for f, x in (("g", v), ("r", w)):
        got = h.flat(d.evaluate_sed(h.arr([u + n * P, u]), f))
        h.close1(got[0], lin(h, ts, x + x[:1], u), "the phase of the cycle", rtol=1e-5, atol=1e-3)
        h.close1(got[1], got[0], "every cycle is the same", rtol=1e-5, atol=1e-3)
    h.cover("end")


def refused(h):
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel

    t = h.reals("t", 3, 0.0, 10.0)
    v = h.reals("v", 3, -5.0, 5.0)
    a = h.arr([[x, y] for x, y in zip(t, v)])
    up = h.true(h.And(t[0] < t[1], t[1] < t[2]))
    for i in range(2):
        h.assume(h.abs(t[i + 1] - t[i]) > 1e-3)
    h.same(h.raises(lambda: LightcurveData({"g": a}, 0.0), ValueError), not up, "unsorted times are refused, sorted ones are not")
    h.check(h.raises(lambda: LightcurveData([1, 2], 0.0), TypeError), "unknown forms are refused")
    h.check(h.raises(lambda: LightcurveData({"g": np.zeros((2, 4))}, 0.0), ValueError), "too many columns")
    h.check(h.raises(lambda: LightcurveData(np.zeros((2, 2)), 0.0), ValueError), "a table needs a filter column")
    ok = {"g": np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 1.0]]), "r": np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 1.0]])}
    h.check(h.raises(lambda: LightcurveData(ok, 0.0, baseline={"g": 1.0}), ValueError), "a baseline per filter")
    LightcurveData(ok, 0.0, periodic=True)
    for bad in (
        {"g": ok["g"], "r": np.array([[0.0, 1.0], [1.2, 2.0], [2.0, 1.0]])},
        {"g": np.array([[0.0, 1.0], [1.0, 2.0], [2.0, 5.0]])},
        {"g": np.array([[0.0, 1.0]])},
        {},
    ):
        h.check(h.raises(lambda bad=bad: LightcurveData(bad, 0.0, periodic=True), ValueError), "not periodic data")
    g = group(h, "gr", symbolic=False)
    h.check(h.raises(lambda: LightcurveTemplateModel(ok, g, 0.0), ValueError), "a model needs t0")
    h.check(h.raises(lambda: LightcurveTemplateModel({"i": ok["g"]}, g, 0.0, t0=1.0), ValueError), "a passband for each light curve")
    m = LightcurveTemplateModel({"g": ok["g"]}, g, 0.0, t0=1.0, node_label="m")
    h.check(h.raises(lambda: m.evaluate_bandfluxes(g, np.array([1.0]), ["r"], m.sample_parameters()), ValueError), "unknown filters are refused")
    from lightcurvelynx.models.lightcurve_template_model import MultiLightcurveTemplateModel

    j, f = h.pick("selected", (0, 1, 2)), h.pick("filter", ("g", "r", "i"))
    parts = [{"g": ok["g"]}, {"r": ok["r"]}, ok]
    mm = MultiLightcurveTemplateModel([LightcurveData(c, 0.0) for c in parts], g, weights=[float(k == j) for k in range(3)], t0=1.0, node_label="mm")
    st = mm.sample_parameters(num_samples=h.pick("n", (1, 2)))
    h.same(h.raises(lambda: mm.evaluate_bandfluxes(g, np.array([1.0]), [f], st), ValueError), f not in parts[j], "filters the selected light curve does not have are refused")
    h.cover("end")


def model(n, nt):
    """Each sample's band fluxes are the light curve at the time since that sample's t0."""

    def fn(h):
        from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel

        g = group(h, "gri", symbolic=False)
        cols = {f: (h.sorted_reals(f"t{f}", k, 10.0, 60.0, gap=GAP), h.reals(f"v{f}", k, -50.0, 50.0)) for f, k in (("r", 3), ("g", 2))}
        lc0 = h.real("lc_t0", 0.0, 50.0)
        b = dict(zip("gr", h.reals("b", 2, -5.0, 5.0))) if h.pick("baseline", (False, True)) else None
        t0 = h.reals("t0", n, -20.0, 20.0)
        m = LightcurveTemplateModel(curve_input(h, cols, "dict"), g, lc0, baseline=b, t0=listed(h, t0), node_label="m")
        st = m.sample_parameters(num_samples=n)
        names = h.pick("filters", (["g", "r", "r"], ["r", "r", "g"]) if n < 3 else (["g", "r", "r"],))[:nt]
        q = h.reals("q", nt, -80.0, 120.0)
        for s in t0:
            for x, f in zip(q, names):
                away(h, x - s + lc0, (cols[f][0][0], cols[f][0][-1]))
        f = m.evaluate_bandfluxes(g, h.arr(q), list(names) if n == 1 and h.pick("as_list", (False, True)) else np.array(names), st)
        h.same(h.shape(f), (nt,) if n == 1 else (n, nt), "shape")
        got = h.flat(f)
        for i in range(n):
            for k, fl in enumerate(names):
                want = expected(h, *cols[fl], q[k] - t0[i] + lc0, 0.0 if b is None else b[fl])
                h.close1(got[i * nt + k], want, "the light curve of the filter since t0", rtol=1e-5, atol=1e-3)
        h.cover("end")

    return fn


def again(h):
    """A second query of the same sample is answered as if it were the first."""
    from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel

    g = group(h, "gri", symbolic=False)
    T = {"r": [10.0, 30.0, 60.0], "g": [5.0, 50.0]}
    V = {f: h.reals(f"v{f}", len(t), -50.0, 50.0) for f, t in T.items()}
    t0 = h.real("t0", -20.0, 20.0)
    m = LightcurveTemplateModel(curve_input(h, {f: (T[f], V[f]) for f in "rg"}, "dict"), g, 0.0, t0=t0, node_label="m")
    st = m.sample_parameters(num_samples=1)
    what = h.pick("what", ("bands", "sed"))
    for r in range(2):
        q = h.real(f"q{r}_", -80.0, 120.0)
        fl = h.pick(f"filter{r}", ("g", "r"))
        away(h, q - t0, (T[fl][0], T[fl][-1]))
        if what == "bands":
            got = h.flat(m.evaluate_bandfluxes(g, h.arr([q]), np.array([fl]), st))[0]
        else:
            got = h.flat(g.fluxes_to_bandflux(m.compute_sed(h.arr([q]), g.waves, st), fl))[0]
        h.close1(got, expected(h, T[fl], V[fl], q - t0, 0.0), "the light curve of the filter since t0", rtol=1e-4, atol=1e-3)
    h.cover("end")


def spectrum(h):
    """The spectrum of the model, seen through a passband, is the light curve of that passband."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel

    if h.pick("shifted", (False, True)):  # grids that agree up to rounding
        waves = {"g": [400.0, 410.0, 420.0], "r": [420.0 + 1e-9, 425.0, 430.0 - 1e-9], "z": [430.0, 440.0 + 1e-9, 450.0]}
        g = PassbandGroup([Passband(np.array([[w, 0.5 + 0.1 * k] for k, w in enumerate(waves[f])]), "S", f, delta_wave=None, trim_quantile=None) for f in waves])
        fs = ["g", "r", "z"]
    else:
        g = group(h, "gri", symbolic=False)
        fs = ["g", "r", "i"] if h.pick("all", (True, False)) else ["r", "i"]
    cols = {f: (h.sorted_reals(f"t{f}", 2, 10.0, 60.0, gap=GAP), h.reals(f"v{f}", 2, -50.0, 50.0)) for f in fs}
    t0 = h.real("t0", -20.0, 20.0)
    m = LightcurveTemplateModel(curve_input(h, cols, "dict"), g, 0.0, t0=t0, node_label="m")
    q = h.real("q", -80.0, 120.0)
    for f in fs:
        away(h, q - t0, cols[f][0])
    sed = m.compute_sed(h.arr([q]), g.waves, m.sample_parameters(num_samples=1))
    h.same(h.shape(sed), (1, len(g.waves)), "one value per time and wavelength")
    for f in fs:
        b = h.flat(g.fluxes_to_bandflux(sed, f))[0]
        h.close1(b, expected(h, *cols[f], q - t0, 0.0), "seen through the passband", rtol=1e-5, atol=1e-3)
    h.cover("end")


def many(n):
    """With several light curves, each sample follows the one selected for it."""

    def fn(h):
        from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel

        g = group(h, "gr", symbolic=False)
        lcs, cols, bases, refs = [], [], [], []
        for j in range(3):
            c = {f: (h.sorted_reals(f"t{j}{f}", 2, 10.0, 60.0, gap=GAP), h.reals(f"v{j}{f}", 2, -50.0, 50.0)) for f in ("gr" if j else "rg")}
            b = dict(zip("gr", h.reals(f"b{j}", 2, -5.0, 5.0)))
            refs.append(h.real(f"ref{j}", 0.0, 50.0))
            lcs.append(LightcurveData(curve_input(h, c, "dict"), refs[-1], baseline=b))
            cols.append(c)
            bases.append(b)
        w = h.pick("weights", (None, [0.0, 1.0, 0.0], [0.2, 0.0, 0.8]))
        t0 = h.reals("t0", n, -20.0, 20.0)
        m = MultiLightcurveTemplateModel(lcs, g, weights=w, t0=listed(h, t0), node_label="m")
        h.same(len(m), 3, "number of light curves")
        st = m.sample_parameters(num_samples=n)
        sel = h.flat(m.get_param(st, "selected_lightcurve"))
        names = ["g", "r"]
        q = h.reals("q", 2, -80.0, 120.0)
        picked = []
        for i in range(n):
            j = next(j for j in range(3) if h.true(sel[i] == j))
            h.check(w is None or w[j] > 0, "only light curves with a weight are selected")
            picked.append(j)
            for x, f in zip(q, names):
                away(h, x - t0[i] + refs[j], cols[j][f][0])
        f = m.evaluate_bandfluxes(g, h.arr(q), names, st)
        h.same(h.shape(f), (2,) if n == 1 else (n, 2), "shape")
        got = h.flat(f)
        for i, j in enumerate(picked):
            for k, fl in enumerate(names):
                want = expected(h, *cols[j][fl], q[k] - t0[i] + refs[j], bases[j][fl])
                h.close1(got[i * 2 + k], want, "the light curve selected for the sample", rtol=1e-5, atol=1e-3)
                bl = h.flat(m.get_param(st, f"baseline_{fl}"))[i]
                h.close1(bl, bases[j][fl], "the baseline of the selected light curve")
        h.cover("end")

    return fn


class Tab:
    """The part of an astropy table that is needed, over symbolic columns."""

    def __init__(self, cols, meta=None, mask=None):
        self.cols = cols
        self.meta = dict(meta or {})
        self.colnames = list(cols)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        return Tab({n: v[k] for n, v in self.cols.items()}, self.meta)

    def __len__(self):
        return len(next(iter(self.cols.values())))


def make_table(h, cols, meta):
    """An astropy table, or its stand-in when the columns are symbolic."""
    cols = {k: np.array(v) if isinstance(v[0], str) else h.arr(v) for k, v in cols.items()}
    if h.sym:
        return Tab(cols, meta)
    from astropy.table import Table

    return Table(cols, meta=meta)


def lclib(h):
    """A light curve library table: magnitudes to fluxes, template rows to baselines, periodic or not."""
    from lightcurvelynx.astro_utils.mag_flux import mag2flux
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    recur = h.pick("recur", ("PERIODIC", "RECUR-PERIODIC", "NON-RECUR", "RECUR-NONPERIODIC", "", "OTHER"))
    ts = [5.0, 6.0, 8.0]
    m = {f: h.reals(f"m{f}", 3, 18.0, 24.0) for f in "gr"}
    per = recur in ("PERIODIC", "RECUR-PERIODIC")
    closed = per and h.pick("closed", (True, False))
    if closed:
        for f in "gr":
            m[f][2] = m[f][0]
    elif per:  # g does not close, r may
        m["g"][0], m["g"][2] = 20.0, 21.5
        m["r"][0], m["r"][2] = 20.0, h.pick("end", (20.0, 19.0))
    tmpl = h.pick("templates", (0, 1, 2))
    b = {f: h.reals(f"b{f}", 2, 18.0, 24.0)[:tmpl] for f in "gr"}
    first = h.pick("order", ("before", "after")) if tmpl else "before"
    typ = ["S"] * 3
    time = list(ts)
    col = {f: list(m[f]) for f in "gr"}
    for k in range(tmpl):
        pos = k if first == "before" else len(typ)
        typ.insert(pos, "T")
        time.insert(pos, 0.0 if first == "before" else 1.0)
        for f in "gr":
            col[f].insert(pos, b[f][k])
    tab = make_table(h, {"type": typ, "time": time, **col}, {"RECUR_CLASS": recur} if recur else {})
    if recur == "OTHER":
        h.check(h.raises(lambda: LightcurveData.from_lclib_table(tab), ValueError), "unknown classes are refused")
        h.cover("end")
        return
    filters = h.pick("filters", (None, ["r", "y"]))
    forced = None if per else h.pick("forced", (None, 6.5))
    d = LightcurveData.from_lclib_table(tab, filters=filters, forced_lc_t0=forced)
    h.same(sorted(d.filters), ["g", "r"] if filters is None else ["r"], "the requested filters")
    h.check(h.raises(lambda: LightcurveData.from_lclib_table(tab, filters=["y"]), ValueError), "no such filter")
    if per:
        closed = all(m[f][0] is m[f][2] or m[f][0] == m[f][2] for f in d.filters)
    ref = 5.0 if forced is None else forced
    h.close1(d.lc_data_t0, ref, "the reference epoch")
    u = h.real("u", 0.01, 2.95 if not per or closed else 4.45)
    h.assume(h.And(h.abs(u - 3.0) > 1e-3, h.abs(u - 1.0) > 1e-3))
    for f in d.filters:
        fl = [mag2flux(x) for x in m[f]]
        xs = [t - 5.0 for t in ts]
        if per and not closed:
            fl, xs = fl + fl[:1], xs + [4.5]
        got = h.flat(d.evaluate_sed(h.arr([u + 5.0 - ref, -50.0, 50.0]), f))
        k = next(i for i in range(len(xs) - 1) if i == len(xs) - 2 or h.true(u < xs[i + 1]))
        want = fl[k] + (fl[k + 1] - fl[k]) / (xs[k + 1] - xs[k]) * (u - xs[k])
        h.close1(got[0], want, "the flux at the time", rtol=1e-5, atol=1e-3)
        if not per:
            base = mag2flux(b[f][0]) if tmpl else 0.0
            h.close1(got[1], base, "the baseline before", rtol=1e-5, atol=1e-6)
            h.close1(got[2], base, "the baseline after", rtol=1e-5, atol=1e-6)
    if per:
        h.close1(d.period, 3.0 if closed else 4.5, "the period: a table that does not close is closed one average step later")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (data, points, periodic, refused, spectrum, lclib):
    _e(fn)


def cases(tier):
    out = [
        Case("data", data, bounds="filters with 3 and 2 points, 2 query times, 3 input forms, magnitudes or fluxes, baselines", time_limit=200),
        Case("points", points, bounds="3 points, symbolic or integers"),
        Case("periodic", periodic, bounds="4 points, period 3.5, 5 cycles, 3 reference epochs"),
        Case("refused", refused, bounds="3 symbolic times; 3 light curves with different filters", random=True),
        Case("model-1", _e(model(1, 3)), warm=False, bounds="1 sample, 3 times in 2 filters"),
        Case("model-2", _e(model(2, 2)), warm=False, bounds="2 samples, 2 times in 2 filters"),
        Case("again", _e(again), bounds="two queries of one sample, 2 filters", warm=False),
        Case("spectrum", spectrum, bounds="2-3 filters with overlapping and almost equal grids"),
        Case("many-1", _e(many(1)), bounds="3 light curves, 1 sample, 3 weightings", random=True),
        Case("many-2", _e(many(2)), bounds="3 light curves, 2 samples, 3 weightings", random=True),
        Case("lclib-table", lclib, bounds="3 rows with up to 2 template rows, all recurrence classes"),
    ]
    if tier != "quick":
        out.append(Case("model-3", _e(model(3, 3)), warm=False, bounds="3 samples, 3 times in 2 filters", tier="thorough", time_limit=600, max_paths=20000))
    return out
