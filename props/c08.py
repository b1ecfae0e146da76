"""The table of observations: column names, constants, filtering, oversampling."""

import numpy as np
import pandas as pd

from symx.run import Case

from . import c07

BANDS = ("g", "r", "i")


def raw(h, n, names=("ra", "dec", "time"), as_dict=False, tag="", **extra):
    vals = {k: h.reals(k + tag, n, -50.0, 50.0) for k in ("ra", "dec", "time")}
    if n > 3 or extra:  # concrete positions keep the search tree concrete
        vals["ra"], vals["dec"] = [10.0 * i for i in range(n)], [5.0 - 3.0 * i for i in range(n)]
    cols = {names[i]: h.arr(vals[k]) for i, k in enumerate(("ra", "dec", "time"))}
    cols.update(extra)
    return (cols if as_dict else pd.DataFrame(cols)), vals


def column(h, ot, name):
    return h.flat(ot[name].to_numpy())


def names(h):
    """Custom column names: both names reach the same column, and the given table is left alone."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    extra = h.reals("x", 3, -5.0, 5.0)
    tab, vals = raw(h, 3, ("RA_deg", "dec", "mjd"), as_dict=h.pick("dict", (True, False)), **{"skyval": h.arr(extra)})
    before = list(tab)
    ot = ObsTable(tab, colmap={"ra": "RA_deg", "time": "mjd", "sky": "skyval", "other": "absent"})
    h.same(len(ot), 3, "one row per observation")
    for new, old, want in (("ra", "RA_deg", vals["ra"]), ("time", "mjd", vals["time"]), ("sky", "skyval", extra), ("dec", "dec", vals["dec"])):
        for nm in (new, old):
            h.check(nm in ot, "both names are known")
            got = column(h, ot, nm)
            for g, w in zip(got, want):
                h.close1(g, w, f"column {new} under the name {nm}")
    for nm in ("other", "absent", "nope"):
        h.check(nm not in ot, "columns that are not there")
        h.check(h.raises(lambda nm=nm: ot[nm], KeyError), "unknown columns are refused")
    h.same(list(tab), before, "the given table keeps its column names")
    lo, hi = ot.time_bounds()
    t = vals["time"]
    h.close1(lo, h.min(t[0], h.min(t[1], t[2])), "first time")
    h.close1(hi, h.max(t[0], h.max(t[1], t[2])), "last time")
    h.cover("end")


def independent(h):
    """The table given and the observation table never share their values."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    x, y = h.reals("x", 3, -5.0, 5.0), h.reals("y", 3, -5.0, 5.0)
    tab, vals = raw(h, 3, as_dict=h.pick("dict", (False, True)), x=h.arr(x))
    cols = {"none": None, "empty": {}, "map": {"brightness": "x"}}[h.pick("colmap", ("none", "empty", "map"))]
    ot = ObsTable(tab, colmap=cols)
    if h.pick("who", ("table", "survey")) == "table":
        if isinstance(tab, dict):
            tab["x"][:] = h.arr(y)
            tab["extra"] = [1, 2, 3]
        else:
            for i in range(3):
                tab.loc[i, "x"] = y[i]
            tab["extra"] = 1.0
        for g, w in zip(column(h, ot, "x"), x):
            h.close1(g, w, "the survey keeps its values")
        h.check("extra" not in ot, "no new column in the survey")
    else:
        ot.add_column("brightness" if cols else "x", h.arr(y), overwrite=True)
        ot._table["time"] = [7.0, 8.0, 9.0]
        ot.filter_rows([0, 2])
        for g, w in zip(h.flat(np.asarray(tab["x"])), x):
            h.close1(g, w, "the given table keeps its values")
        for g, w in zip(h.flat(np.asarray(tab["time"])), vals["time"]):
            h.close1(g, w, "the given table keeps its times")
        h.same(len(tab["x"]), 3, "the given table keeps its rows")
    h.cover("end")


def invalid(h):
    from lightcurvelynx.obstable.obs_table import ObsTable

    miss = h.pick("missing", ("ra", "dec", "time"))
    tab, _ = raw(h, 2, as_dict=True)
    tab.pop(miss)
    h.check(h.raises(lambda: ObsTable(tab), KeyError), "a missing required column is refused")
    tab, _ = raw(h, 2, as_dict=True, tag="_b", MJD=[1.0, 2.0])
    h.check(h.raises(lambda: ObsTable(tab, colmap={"time": "MJD"}), ValueError), "two columns of one name are refused")
    h.cover("end")


def survey_values(h):
    """Values of the survey: constructor arguments over table metadata over defaults."""
    from lightcurvelynx.obstable.opsim import OpSim

    a, b = h.reals("v", 2, 0.1, 10.0)
    tab, _ = raw(h, 2, zp=[1.0, 1.0])
    meta = h.pick("metadata", (False, True))
    if meta:
        tab.attrs["lightcurvelynx_survey_data"] = {"radius": b, "custom": b}
    given = h.pick("given", (False, True))
    kw = {"radius": a, "new": a} if given else {}
    ot = OpSim(tab, colmap={}, **kw)
    h.close1(ot.radius, a if given else (b if meta else 1.75), "the radius that applies")
    h.close1(ot.survey_values["pixel_scale"], 0.2, "other values keep their defaults")
    if meta:
        h.close1(ot.survey_values["custom"], b, "metadata is kept")
    if given:
        h.close1(ot.safe_get_survey_value("new"), a, "new values are kept")
    h.check(h.raises(lambda: ot.safe_get_survey_value("undefined"), ValueError), "undefined values are refused")
    other = OpSim(raw2(h), colmap={})
    h.close1(other.radius, 1.75, "another table keeps the defaults")
    c = h.real("c", -1.0, 1.0)
    h.assume(h.abs(c) > 1e-6)
    if h.true(c > 0):
        ot.radius = c
        h.close1(ot.radius, c, "the radius can be changed")
    else:
        h.check(h.raises(lambda: setattr(ot, "radius", c), ValueError), "a radius must be positive")
    h.cover("end")


def raw2(h):
    return pd.DataFrame({"ra": [1.0], "dec": [2.0], "time": [3.0], "zp": [1.0]})


def add_column(h):
    from lightcurvelynx.obstable.obs_table import ObsTable

    tab, _ = raw(h, 3)
    ot = ObsTable(tab)
    s = h.real("s", -5.0, 5.0)
    v, w = h.reals("v", 3, -5.0, 5.0), h.reals("w", 3, -5.0, 5.0)
    ot.add_column("const", 2.5)
    ot.add_column("vals", h.arr(v))
    h.check(h.raises(lambda: ot.add_column("vals", h.arr(w)), KeyError), "an existing column is kept")
    for i in range(3):
        h.close1(column(h, ot, "const")[i], 2.5, "a scalar fills the column")
        h.close1(column(h, ot, "vals")[i], v[i], "one value per row")
    ot.add_column("vals", h.arr(w), overwrite=True)
    for i in range(3):
        h.close1(column(h, ot, "vals")[i], w[i], "overwritten when asked to")
    h.check("vals" not in tab.columns, "the given table is not changed")
    h.cover("end")


def filtering(h):
    """filter_rows keeps exactly the selected rows, in order, with all their values."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    n = 4
    x = h.reals("x", n, -5.0, 5.0)
    fil = np.array(["g", "r", "g", "i"])
    tab, vals = raw(h, n, x=h.arr(x), filter=fil)
    tab.index = [7, 3, 3, 0]
    ot = ObsTable(tab)
    kind = h.pick("by", ("mask", "symbolic", "indices", "twice"))
    keep = list(range(n))
    if kind == "mask":
        m = [h.pick(f"m{i}", (True, False)) for i in range(n)]
        out = ot.filter_rows(np.array(m))
        keep = [i for i in keep if m[i]]
    elif kind == "symbolic":
        cut = h.real("cut", -5.0, 5.0)
        for v in x:
            h.assume(h.abs(v - cut) > 1e-6)
        out = ot.filter_rows(np.array([h.true(v > cut) for v in x]))
        keep = [i for i in keep if h.true(x[i] > cut)]
    elif kind == "indices":
        idx = h.pick("idx", ([0], [2, 1], [3, 0, 1], [1, 1]))
        out = ot.filter_rows(idx)
        keep = sorted(set(idx))
    else:
        out = ot.filter_rows([1, 2, 3]).filter_rows(np.array([True, False, True]))
        keep = [1, 3]
    h.check(out is ot, "the table itself is returned")
    h.same(len(ot), len(keep), "one row per selected row")
    for name, src in (("x", x), ("ra", vals["ra"]), ("dec", vals["dec"]), ("time", vals["time"])):
        got = column(h, ot, name)
        for g, i in zip(got, keep):
            h.close1(g, src[i], f"{name} of the selected rows")
    h.same([str(f) for f in ot["filter"]], [str(fil[i]) for i in keep], "filters of the selected rows")
    h.same(sorted(str(f) for f in ot.filters), sorted({str(fil[i]) for i in keep}), "the filters that remain")
    h.same(len(tab), n, "the given table is not changed")
    h.check(h.raises(lambda: ot.filter_rows(np.ones(n + 1, dtype=bool)), ValueError), "a mask of another length is refused")
    h.cover("end")


def fake_constants(h):
    """Per-band constants become columns; a column of the table wins over the constant."""
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    fil = [h.pick(f"f{i}", BANDS[:2]) for i in range(3)]
    zp = {b: v for b, v in zip(BANDS, h.reals("zp", 3, 0.1, 10.0))}
    sky = {b: v for b, v in zip(BANDS, h.reals("sky", 3, 0.0, 10.0))}
    own = h.pick("own", (False, True))
    x = h.reals("skycol", 3, 0.0, 10.0)
    tab, _ = raw(h, 3, filter=np.array(fil), **({"sky": h.arr(x)} if own else {}))
    fw = h.real("fwhm", 0.5, 5.0)
    by_fwhm = h.pick("by_fwhm", (False, True))
    one = h.real("exptime", 1.0, 100.0)
    kw = {"fwhm_px": {b: fw * (k + 1) for k, b in enumerate(BANDS)}} if by_fwhm else {"psf_footprint": fw}
    ot = FakeObsTable(tab, zp_per_band=zp, sky=sky, exptime=one, **kw)
    for i in range(3):
        h.close1(column(h, ot, "zp")[i], zp[fil[i]], "zero point of the row's band")
        h.close1(column(h, ot, "sky")[i], x[i] if own else sky[fil[i]], "the row's sky")
        h.close1(column(h, ot, "exptime")[i], one, "a single value applies to all bands")
        f = fw * (BANDS.index(fil[i]) + 1)
        want = f * f * (np.pi / (2 * np.log(2))) if by_fwhm else fw
        h.close1(column(h, ot, "psf_footprint")[i], want, "footprint of the row")
    h.cover("end")


def fake_refused(h):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    tab, _ = raw(h, 2, filter=np.array(["g", "r"]))
    ok = dict(zp_per_band={"g": 1.0, "r": 2.0}, fwhm_px=2.0, sky=1.0)
    bad = h.real("bad", -5.0, 5.0)
    h.assume(h.abs(bad) > 1e-6)
    what = h.pick("what", ("zp", "missing zp", "no zp", "fwhm", "missing fwhm", "exptime", "nexposure", "footprint", "no exptime", "no psf", "no sky", "const", "missing const"))
    pos = None
    if what == "zp":
        kw, pos = {**ok, "zp_per_band": {"g": 1.0, "r": bad}}, True
    elif what == "missing zp":
        kw = {**ok, "zp_per_band": {"g": 1.0}}
    elif what == "no zp":
        kw = {**ok, "zp_per_band": None}
    elif what == "fwhm":
        kw, pos = {**ok, "fwhm_px": {"g": bad, "r": 1.0}}, True
    elif what == "missing fwhm":
        kw = {**ok, "fwhm_px": {"g": 1.0}}
    elif what == "exptime":
        kw, pos = {**ok, "exptime": bad}, True
    elif what == "nexposure":
        kw, pos = {**ok, "nexposure": bad}, True
    elif what == "footprint":
        kw, pos = {**ok, "psf_footprint": bad}, True
    elif what == "no exptime":
        kw = {**ok, "exptime": None}
    elif what == "no psf":
        kw = {**ok, "fwhm_px": None}
    elif what == "no sky":
        kw = {**ok, "sky": None}
    elif what == "const":
        kw, pos = {**ok, "const_flux_error": {"g": 1.0, "r": bad}}, True
    else:
        kw = {**ok, "const_flux_error": {"g": 1.0}}
    refused = h.raises(lambda: FakeObsTable(tab, **kw), ValueError)
    h.check(refused == (not h.true(bad > 0) if pos else True), f"refused exactly when invalid ({what})")
    h.cover("end")


def oversample(h):
    """Oversampling one pointing: alternating bands on a time grid, prototype rows from the same band."""
    from lightcurvelynx.obstable.opsim import OpSim, oversample_opsim

    order = h.pick("order", ((20.0, 21.0, 19.0, 18.0, 18.5), (21.0, 20.0, 18.0, 22.0, 17.0)))
    seeing = h.reals("seeing", 5, 0.5, 2.0)
    bands = ["g", "g", "r", "r", "g"]
    far = h.pick("far", (0, 1))  # one row lies elsewhere
    ra = [10.0] * 5
    ra[far] = 100.0
    tab = pd.DataFrame({
        "observationId": [3, 4, 5, 6, 7], "ra": ra, "dec": [0.0] * 5, "time": [1.0, 2.0, 3.0, 4.0, 5.0], "filter": bands,
        "airmass": h.arr(h.reals("am", 5, 1.0, 2.0)), "exptime": [30.0] * 5, "zp": [1.0, 2.0, 3.0, 4.0, 5.0],
        "seeing": h.arr(seeing), "skybrightness": list(order),
    })  # fmt: skip
    ot = OpSim(tab, colmap={}, radius=3.0)
    sel = h.pick("bands", (None, ["g"], ["r", "g"]))
    strategy = h.pick("strategy", ("darkest_sky", "random"))
    t0, dt = 10.0, 0.5
    t1 = h.pick("t1", (11.0, 11.5, 12.9, None))
    t0 = h.pick("t0", (10.0, None)) if t1 is not None else h.pick("t0 only", (2.0, None))
    new = oversample_opsim(ot, pointing=(10.0, 0.0), delta_t=dt, time_range=(t0, t1), bands=sel, strategy=strategy)
    # by default the times of the observations of this pointing
    grid = np.arange(float(far == 0) + 1.0 if t0 is None else t0, 5.0 if t1 is None else t1, dt)
    use = ["g", "r"] if sel is None else sel
    h.same(len(new), len(grid), "one row per time of the grid")
    h.same(sorted(new.columns), sorted(ot.columns), "the same columns")
    ids = [int(v) for v in new["observationId"]]
    h.check(len(set(ids)) == len(ids) and min(ids) > 7, "new identifiers")
    h.close1(new.radius, 3.0, "the survey values are kept")
    near = [i for i in range(5) if i != far]
    for k in range(len(grid)):
        h.close1(column(h, new, "time")[k], float(grid[k]), "times of the grid")
        h.close1(column(h, new, "ra")[k], 10.0, "the pointing")
        h.close1(column(h, new, "dec")[k], 0.0, "the pointing")
        b = str(list(new["filter"])[k])
        h.same(b, use[k % len(use)], "bands alternate")
        rows = [i for i in near if bands[i] == b]
        got = column(h, new, "skybrightness")[k]
        src = [i for i in rows if order[i] == float(got)]
        h.same(len(src), 1, "a prototype of the same band and pointing")
        i = src[0]
        if strategy == "darkest_sky":
            h.same(float(order[i]), max(order[j] for j in rows), "the darkest sky of the band")
        h.close1(column(h, new, "seeing")[k], seeing[i], "all other columns come from the prototype")
        h.close1(column(h, new, "zp")[k], float(i + 1), "all other columns come from the prototype")
    h.check(h.raises(lambda: oversample_opsim(ot, pointing=(10.0, 0.0), time_range=(2.0, 1.0)), ValueError), "inverted time range")
    h.check(h.raises(lambda: oversample_opsim(ot, pointing=(10.0, 60.0)), ValueError), "no observations there")
    h.check(h.raises(lambda: oversample_opsim(ot, pointing=(10.0, 0.0), bands=["y"]), ValueError), "unknown band")
    h.cover("end")


def random_tables(h):
    """Random surveys: pointings uniform on the sphere, a table of the requested size, seeded as asked."""
    from lightcurvelynx.obstable.opsim import OpSim, create_random_opsim, opsim_add_random_data
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable, create_random_ztf_obs_data

    kind = h.pick("survey", ("opsim", "ztf"))
    seed = h.pick("seed", (None, 0, 17))
    n = h.pick("n", (1, 2))
    make = create_random_opsim if kind == "opsim" else create_random_ztf_obs_data
    h.check(h.raises(lambda: make(0), ValueError), "no observations")
    h.check(h.raises(lambda: make(-1), ValueError), "no observations")
    before = len(h.own)
    tab = make(n, seed=seed)
    own = h.own[before:]
    h.same(len(own), 1, "one generator")
    h.same(getattr(own[0], "seed", None), seed, "the seed that was asked for")
    h.same(len(tab), n, "the requested size")
    u = [e[1] for e in own[0].log if e[0] == "u"]
    names = ("ra", "dec") if kind == "ztf" or "ra" in tab else ("fieldRA", "fieldDec")
    ra, dec = (column(h, tab, k) for k in names)
    flt = [str(b) for b in tab["filter"]]
    known = ("u", "g", "r", "i", "z", "y") if kind == "opsim" else ("g", "r", "i")
    picks = [e for e in own[0].log if e[0] == "c"]
    h.same([known[i] for e in picks for i in e[1]], flt, "filters drawn from those of the survey")
    h.check(all(e[2] is None and e[3] for e in picks), "all filters alike")
    for i in range(n):
        h.close1(ra[i], 360.0 * u[i], "right ascension is uniform")
        h.check(h.And(dec[i] >= -90.0 - 1e-9, dec[i] <= 90.0 + 1e-9), "between the poles")
    sd = [h.sin(h.rad(d)) for d in dec]
    signs = [h.And(*[h.And(sd[i] - s * (2.0 * u[n + i] - 1.0) < 1e-6, sd[i] - s * (2.0 * u[n + i] - 1.0) > -1e-6) for i in range(n)]) for s in (1.0, -1.0)]
    h.check(h.Or(*signs), "the sine of the declination is uniform")
    if kind == "opsim":
        h.check(isinstance(tab, OpSim), "an OpSim")
        for i, t in enumerate(column(h, tab, "time")):
            h.close1(t, 0.05 * i, "times in order")
        lo = h.real("lo", -5.0, 5.0)
        width = h.real("width", 0.0, 5.0)
        b2 = len(h.own)
        opsim_add_random_data(tab, "extra", lo, lo + width)
        for g in column(h, tab, "extra"):
            h.check(h.And(g >= lo - 1e-9, g <= lo + width + 1e-9), "values in the given range")
        d = [e[1] for g in h.own[b2:] for e in g.log]
        h.same(len(d), n, "one draw per row")
        for g, v in zip(column(h, tab, "extra"), d):
            h.close1(g, lo + width * v, "uniform in the given range")
    else:
        ot = ZTFObsTable(tab)
        h.same(len(ot), n, "a table that the survey accepts")
        for i in range(n):
            h.close1(column(h, ot, "ra")[i], ra[i], "the same pointing")
            h.check(column(h, ot, "zp")[i] > 0.0, "a zero point")
    h.cover("end")


FNS = (random_tables, names, independent, invalid, survey_values, add_column, filtering, fake_constants, fake_refused, oversample)
for f in FNS:
    f.must_cover = ("end",)


def cases(tier):
    p = dict(patches=c07.patches)
    return [
        Case("random-tables", random_tables, random=True, bounds="1..2 rows, symbolic draws", **p),
        Case("names", names, bounds="3 rows, symbolic values", **p),
        Case("independent", independent, bounds="3 rows, symbolic values; dict or data frame, 3 column maps", **p),
        Case("invalid", invalid, bounds="2 rows", **p),
        Case("survey-values", survey_values, bounds="2 rows, symbolic values", **p),
        Case("add-column", add_column, bounds="3 rows", **p),
        Case("filter-rows", filtering, bounds="4 rows with repeated labels, all masks, a symbolic cut, index lists", **p),
        Case("band-constants", fake_constants, bounds="3 rows in 2 bands, symbolic constants", **p),
        Case("refused-constants", fake_refused, bounds="2 rows, a symbolic invalid value", **p),
        Case("oversample", oversample, bounds="5 rows, 2-6 new times", **p),
    ]
