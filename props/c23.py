"""Post-processing of results: signal to noise, detections, magnitudes and relative times."""

import numpy as np
import numpy.ma as real_ma
import pandas as pd

from symx.run import Case


class Masked:
    """Stand-in for a one-dimensional masked array over symbolic values."""

    def __init__(self, values):
        self.values = list(values)

    @property
    def shape(self):
        return (len(self.values),)

    @property
    def mask(self):
        return np.array([v is real_ma.masked for v in self.values])

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            return self.values[i]
        return Masked(v for v, k in zip(self.values, _truth(i, len(self))) if k)

    def __setitem__(self, i, vals):
        if isinstance(i, (int, np.integer)):
            self.values[i] = vals
            return
        where = [j for j, k in enumerate(_truth(i, len(self))) if k]
        vals = [vals] * len(where) if vals is real_ma.masked or np.ndim(vals) == 0 else list(vals)
        if len(vals) != len(where):
            raise ValueError("length")
        for j, v in zip(where, vals):
            self.values[j] = v

    def __ge__(self, x):
        return Masked(v if v is real_ma.masked else v >= x for v in self.values)

    def filled(self, v):
        return np.array([v if x is real_ma.masked else x for x in self.values], dtype=object)


def _truth(mask, n):
    m = list(mask)
    if len(m) != n:
        raise IndexError("mask")
    return [bool(k) for k in m]


class MaStub:
    masked = real_ma.masked
    nomask = real_ma.nomask
    MaskedArray = Masked

    @staticmethod
    def masked_all(shape, dtype=float):
        n = shape if isinstance(shape, int) else int(np.prod(shape))
        return Masked([real_ma.masked] * n)

    @staticmethod
    def array(data, mask=False, **k):
        data = list(data)
        m = [mask] * len(data) if np.ndim(mask) == 0 else _truth(mask, len(data))
        return Masked(real_ma.masked if k else v for v, k in zip(data, m))

    masked_array = array

    @staticmethod
    def masked_where(cond, a, copy=True):
        return MaStub.array(a, mask=cond)

    @staticmethod
    def filled(a, fill_value=None):
        return a.filled(fill_value)


class Nest:
    def __init__(self, f, name):
        self.f, self.name = f, name

    @property
    def fields(self):
        return list(self.f.flat)

    columns = fields

    @property
    def list_lengths(self):
        return np.array(self.f.lengths)

    def to_flat(self, *a):
        return pd.DataFrame({k: self.f[f"{self.name}.{k}"] for k in self.f.flat})

    def __getitem__(self, k):
        return self.f[f"{self.name}.{k}"]


class NestSeries:
    def __init__(self, f, name):
        self.nest = Nest(f, name)
        self.array = self.nest
        self.index = f.index

    def __getitem__(self, k):
        return self.nest[k]


class Frame(pd.DataFrame):
    """Stand-in for a nested frame with one nested column."""

    _metadata = ["flat", "lengths", "labels", "written"]

    @property
    def _constructor(self):
        return Frame

    @property
    def columns(self):
        return pd.Index([*super().columns, "lightcurve"]) if hasattr(self, "flat") else super().columns

    @columns.setter
    def columns(self, v):
        pd.DataFrame.columns.__set__(self, v)

    def __getitem__(self, k):
        if isinstance(k, str) and k == "lightcurve":
            return NestSeries(self, k)
        if isinstance(k, str) and k.startswith("lightcurve."):
            return pd.Series(self.flat[k[11:]], index=self.labels, dtype=object)
        if not isinstance(k, (str, list)) and len(k) == len(self.index) and all(isinstance(x, (bool, np.bool_)) for x in k):
            return self.part(np.asarray(k, dtype=bool))
        return super().__getitem__(k)

    def part(self, mask):
        """Some of the rows, with their own light curves."""
        out = Frame({k: super(Frame, self).__getitem__(k)[mask] for k in super().columns}, index=self.index[mask])
        owner = np.repeat(mask, self.lengths)
        parts = {"flat": {k: [x for x, m in zip(v, owner, strict=True) if m] for k, v in self.flat.items()}, "labels": np.asarray(self.labels)[owner],
                 "lengths": [n for n, m in zip(self.lengths, mask, strict=True) if m], "written": self.written}  # fmt: skip
        for name, v in parts.items():
            object.__setattr__(out, name, v)
        return out

    def dropna(self, *, subset=None, **k):
        if subset not in ("lightcurve", ["lightcurve"]):
            raise c.Unsupported("dropna")
        # Writing a nested column leaves an empty light curve where there was none.
        return self.part(np.array([self.written or n > 0 for n in self.lengths], dtype=bool))

    @property
    def loc(self):
        frame = self

        class Loc:
            def __getitem__(self, k):
                return frame[k]

        return Loc()

    def __setitem__(self, k, v):
        if isinstance(k, str) and k.startswith("lightcurve."):
            v = list(v)
            if len(v) != len(self.labels):
                raise ValueError("length")
            self.flat[k[11:]] = v
            object.__setattr__(self, "written", True)
        else:
            super().__setitem__(k, v)


def make(h, labels, lengths, top, flat):
    """A result table with these row labels and light curve lengths."""
    if h.sym:
        f = Frame({k: pd.Series(v, index=labels, dtype=object) for k, v in top.items()}, index=labels)
        for name, v in (("lengths", lengths), ("labels", np.repeat(labels, lengths)), ("flat", {k: list(v) for k, v in flat.items()}), ("written", False)):
            object.__setattr__(f, name, v)
        return f
    from nested_pandas import NestedFrame

    n = len(labels)
    nf = NestedFrame({k: np.array(v, dtype=object if None in v else float) for k, v in top.items()}, index=range(n))
    inner = pd.DataFrame(flat, index=np.repeat(range(n), lengths))
    nf = nf.add_nested(inner, "lightcurve")
    nf.index = labels
    return nf


def missing(x):
    return x is None or x is real_ma.masked or x is pd.NA or (isinstance(x, float) and np.isnan(x))


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.utils.post_process_results as p

    return [(p, "ma", MaStub), (p, "NestedFrame", Frame)]


def values(h, n):
    flux = h.reals("f", n, -10.0, 100.0)
    err = h.reals("e", n, -1.0, 10.0)
    for x in flux + err:
        h.assume(h.Or(x == 0, h.abs(x) > 1e-3))
    return flux, err


def expect(h, i, flux, err, snr_min, got):
    """Compare the derived columns of one observation."""
    valid = h.true(h.And(flux > 0, err > 0))
    for k in ("snr", "mag", "magerr"):
        h.same(missing(got[k]), not valid, f"{k} is defined exactly for positive flux and error")
    det = got["detection"]
    if not valid:
        h.check(h.Not(det), "an undefined signal to noise ratio is no detection")
        return
    h.close1(got["snr"], flux / err, "flux over error")
    h.assume(h.abs(flux - snr_min * err) > 1e-6)
    h.check(h.Or(h.And(det, flux >= snr_min * err), h.And(h.Not(det), flux < snr_min * err)), "detected exactly when the ratio reaches the minimum")
    h.close1(got["mag"], 31.4 - 2.5 * h.log10(flux), "AB magnitude of the flux in nJy")
    h.close1(got["magerr"], 2.5 / np.log(10.0) * err / flux, "error of the magnitude")


def arrays(h):
    from lightcurvelynx.utils.post_process_results import lightcurve_compute_mag, lightcurve_compute_snr

    n = h.pick("n", (1, 3))
    flux, err = values(h, n)
    as_list = h.pick("list", (True, False))
    f, e = (flux, err) if as_list else (h.arr(flux), h.arr(err))
    snr = lightcurve_compute_snr(f, e)
    mag, magerr = lightcurve_compute_mag(f, e)
    h.check(len(snr) == len(mag) == len(magerr) == n, "one value per observation")
    for i in range(n):
        expect(h, i, flux[i], err[i], 0.0, dict(snr=snr[i], mag=mag[i], magerr=magerr[i], detection=True if not missing(snr[i]) else False))
    h.cover("end")


def single(h):
    from lightcurvelynx.utils.post_process_results import augment_single_lightcurve

    n = h.pick("n", (1, 2))
    flux, err = values(h, n)
    mjd = h.reals("t", n, -100.0, 100.0)
    t0 = h.real("ref", -50.0, 50.0) if h.pick("has_t0", (True, False)) else None
    s = h.real("s", -1.0, 20.0) if h.pick("has_snr", (True, False)) else None
    labels = h.pick("labels", ("range", "other"))
    cols = {"mjd": h.arr(mjd), "flux": h.arr(flux), "fluxerr": h.arr(err)}
    if h.pick("mjd", (True, False)) is False:
        cols.pop("mjd")
    df = pd.DataFrame(cols, index=None if labels == "range" else [7 - i for i in range(n)])
    kw = {} if t0 is None else dict(t0=t0)
    if s is not None:
        kw["min_snr"] = s
    augment_single_lightcurve(df, **kw)
    want = {*cols, "snr", "detection", "mag", "magerr"} | ({"time_rel"} if t0 is not None and "mjd" in cols else set())
    h.same(set(df.columns), want, "exactly the derived columns are added")
    for i in range(n):
        row = {k: df[k].tolist()[i] for k in df.columns}
        h.check(h.And(row["flux"] == flux[i], row["fluxerr"] == err[i]), "the observations are unchanged")
        expect(h, i, flux[i], err[i], 0.0 if s is None else s, row)
        if "time_rel" in row:
            h.close1(row["time_rel"], mjd[i] - t0, "time since the reference time", atol=1e-6)
    for k in ("flux", "fluxerr"):
        h.check(h.raises(lambda k=k: augment_single_lightcurve(df.drop(columns=[k])), ValueError), "both columns are needed")
    h.cover("end")


LABELS = {"range": [0, 1, 2], "unordered": [2, 0, 1], "other": [10, 4, 7], "repeated": [0, 1, 0]}


def whole(h):
    from lightcurvelynx.utils.post_process_results import results_augment_lightcurves, results_drop_empty

    labels = LABELS[h.pick("labels", tuple(LABELS))]
    lengths = h.pick("lengths", ([1, 1, 1], [2, 0, 1], [0, 1, 2]))
    n = sum(lengths)
    flux, err = h.reals("f", n, -10.0, 100.0), h.reals("e", n, 0.5, 10.0)
    for x in flux:
        h.assume(h.Or(x == 0, h.abs(x) > 1e-3))
    mjd = h.reals("t", n, -100.0, 100.0)
    t0s = h.reals("t0_", 3, -10.0, 10.0)
    s = h.real("s", -1.0, 20.0)
    case = h.pick("t0", ("given", "absent", "none", "partly"))
    t0 = {"given": t0s, "none": [None] * 3, "partly": [t0s[0], None, t0s[2]]}.get(case)
    top = {"z": [1.0, 2.0, 3.0], **({} if t0 is None else {"t0": t0})}
    res = make(h, labels, lengths, top, {"mjd": mjd, "flux": flux, "fluxerr": err})
    drop = h.pick("empty ones", ("kept", "dropped first", "dropped last")) if case in ("given", "absent") else "kept"
    full = res
    if drop == "dropped first":
        res = results_drop_empty(res)
    results_augment_lightcurves(res, min_snr=s)
    if drop == "dropped last":
        full = res
        res = results_drop_empty(res)
    if drop != "kept":
        h.same(list(full.index), labels, "the table given is left as it is")
        keep = [i for i, m in enumerate(lengths) if m]
        labels, lengths, t0s = [labels[i] for i in keep], [lengths[i] for i in keep], [t0s[i] for i in keep]
        h.same([int(m) for m in res["lightcurve"].nest.list_lengths], lengths, "exactly the rows without observations are dropped")
        h.same([float(z) for z in res["z"]], [i + 1.0 for i in keep], "the other rows are unchanged")
        h.same(list(res.index), labels, "the other rows keep their labels")
        res = res.reset_index(drop=True) if not h.sym else res
    h.check(drop != "kept" or list(res.index) == labels and list(res["z"]) == [1.0, 2.0, 3.0], "the rows are unchanged")
    fields = set(res["lightcurve"].nest.fields)
    h.same(fields, {"mjd", "flux", "fluxerr", "snr", "detection", "mag", "magerr"} | ({"time_rel"} if case == "given" else set()), "exactly the derived columns are added")
    cols = {k: res[f"lightcurve.{k}"].tolist() for k in fields}
    owner = [i for i, m in enumerate(lengths) for _ in range(m)]
    h.check(all(len(c) == n for c in cols.values()), "no observation is added or lost")
    for j in range(n):
        row = {k: c[j] for k, c in cols.items()}
        h.check(h.And(row["flux"] == flux[j], row["fluxerr"] == err[j], row["mjd"] == mjd[j]), "the observations are unchanged")
        expect(h, j, flux[j], err[j], s, row)
        if case == "given":
            h.close1(row["time_rel"], mjd[j] - t0s[owner[j]], "time since the reference time of its own row", atol=1e-6)
    h.cover("end")


def refused(h):
    from lightcurvelynx.utils.post_process_results import results_augment_lightcurves

    f = h.reals("f", 2, 1.0, 10.0)
    for drop in ("flux", "fluxerr", "mjd"):
        flat = {"mjd": [1.0, 2.0], "flux": f, "fluxerr": [1.0, 1.0]}
        flat.pop(drop)
        res = make(h, [0, 1], [1, 1], {"t0": [1.0, 2.0]}, flat)
        h.check(h.raises(lambda res=res: results_augment_lightcurves(res), ValueError), "the needed columns must be there")
    h.check(h.raises(lambda: results_augment_lightcurves(pd.DataFrame({"flux": [1.0]})), ValueError), "only nested tables are accepted")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    p = dict(patches=patches)
    return [
        Case("arrays", _e(arrays), bounds="1 or 3 observations, any fluxes and errors", **p),
        Case("single", _e(single), bounds="1 or 2 observations, optional time column, reference time and minimum", max_paths=20000, **p),
        Case("whole", _e(whole), bounds="3 rows with 0-2 observations each, 4 kinds of row labels, reference times given, partly or not", max_paths=40000, **p),
        Case("refused", _e(refused), bounds="missing columns", **p),
    ]
