"""Storage: samples, arrays and tables of observations read back as they were written."""

import os
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from props import c07
from props.common import toy_sed_class
from symx import arrays
from symx import core as c
from symx.run import Case

FILES = {}  # contents of the files written by the stand-ins, by path


class Scratch:
    def __enter__(self):
        FILES.clear()
        self.d = tempfile.mkdtemp(prefix="symx_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        FILES.clear()


def touch(path):
    with open(path, "w") as f:
        f.write("x")


def sym(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def copied(a):
    return np.array(arrays.base(a) if isinstance(a, arrays.SymArr) else a, copy=True)


class Ecsv:
    """Stands for astropy's ascii module with the ECSV format: columns are stored with their types; an empty entry is a missing one unless told otherwise."""

    @staticmethod
    def write(table, filename, format=None, overwrite=False):
        if format != "ecsv":
            raise c.Unsupported(f"ascii format {format}")
        if os.path.exists(filename) and not overwrite:
            raise OSError("exists")
        FILES[str(filename)] = {k: copied(np.asarray(table[k].data if hasattr(table[k], "data") else table[k])) for k in table.colnames}
        touch(filename)

    @staticmethod
    def read(filename, format=None, fill_values=None, **k):
        from astropy.table import Table

        if not os.path.exists(filename):
            raise FileNotFoundError(filename)
        out = Table()
        for n, v in FILES[str(filename)].items():
            if v.dtype.kind in "U" and fill_values is None and (v == "").any():
                v = np.where(v == "", "0", v)
            out[n] = v
        return out


class Rows:
    """numpy's readers and writers of arrays."""

    @staticmethod
    def save(path, a):
        FILES[str(path)] = copied(np.asarray(a))
        touch(path)

    @staticmethod
    def load(path, **k):
        v = FILES[str(path)]
        return {n: arrays.wrap(copied(x)) for n, x in v.items()} if isinstance(v, dict) else arrays.wrap(copied(v))

    @staticmethod
    def savez_compressed(path, **kw):
        FILES[str(path)] = {n: copied(np.asarray(x)) for n, x in kw.items()}
        touch(path)

    savez = savez_compressed

    @staticmethod
    def savetxt(path, a, fmt="%.18e", delimiter=" ", **k):
        if not re.fullmatch(r"%\.(1[6-9]|[2-9][0-9])e", fmt):
            a = arrays.wrap(a) * (1.0 + 1e-4)  # digits may be lost: to be decided by the replay
        FILES[str(path)] = (copied(np.asarray(a)), delimiter)
        touch(path)

    @staticmethod
    def loadtxt(path, delimiter=None, comments="#", ndmin=0, **k):
        a, sep = FILES[str(path)]
        if (sep or " ").strip() != (delimiter or " ").strip():
            raise ValueError("could not convert string to float")
        while a.ndim > max(ndmin, 1) and 1 in a.shape:
            a = a.reshape([n for n in a.shape if n != 1] or [1])
        return arrays.wrap(copied(a))


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str, c.Sym)):
        return v
    raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")


class Frames:
    """pandas' databases and parquet files."""

    @staticmethod
    def path(con):
        return con.execute("PRAGMA database_list").fetchall()[0][2]

    def to_sql(self, name, con, if_exists="fail", index=True, **k):
        key = (Frames.path(con), name.lower())
        if key in FILES and if_exists == "fail":
            raise ValueError(f"Table '{name}' already exists.")
        df = self.copy(deep=True)
        if index:
            n = self.index.name or ("index" if "index" not in self.columns else "level_0")
            df.insert(0, n, list(self.index))  # ValueError if it exists
        df.attrs = {}
        if if_exists == "append" and key in FILES:
            df = pd.concat([FILES[key], df])
        FILES[key] = df.reset_index(drop=True)

    @staticmethod
    def read_sql_query(sql, con, **k):
        m = re.fullmatch(r"\s*select \* from (\w+)\s*;?\s*", sql, re.I)
        if not m or (Frames.path(con), m[1].lower()) not in FILES:
            raise ValueError("no such table")
        return FILES[(Frames.path(con), m[1].lower())].copy(deep=True)

    def to_parquet(self, path, **k):
        df = self.copy(deep=True)
        df.attrs = jsonable(self.attrs)
        FILES[str(path)] = df
        touch(path)

    @staticmethod
    def read_parquet(path, **k):
        df = FILES[str(path)].copy(deep=True)
        df.attrs = jsonable(FILES[str(path)].attrs)
        return df


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.graph_state as g

    return c07.patches(True) + [
        (g, "ascii", Ecsv),
        *[(np, n, getattr(Rows, n)) for n in ("save", "load", "savez_compressed", "savez", "savetxt", "loadtxt")],
        (pd.DataFrame, "to_sql", Frames.to_sql),
        (pd.DataFrame, "to_parquet", Frames.to_parquet),
        (pd, "read_sql_query", Frames.read_sql_query),
        (pd, "read_parquet", Frames.read_parquet),
    ]


def samples(n):
    """Sampled parameters: the same nodes, names and values of the same kind, in the same order."""

    def fn(h):
        from lightcurvelynx.graph_state import GraphState

        x, y = h.reals("x", 3, -5.0, 5.0), h.reals("y", 6, -5.0, 5.0)
        kind = h.pick("kind", ("number", "vector", "whole", "word", "yes-no", "none", "some"))
        val = {
            "number": y[:3],
            "vector": [h.arr(y[2 * i : 2 * i + 2]) for i in range(3)],
            "whole": [3, -7, 2**40],
            "word": h.pick("words", (["a", "b c", "d"], ["", "r,s", '"q"'])) if kind == "word" else None,
            "yes-no": [True, False, True],
            "none": [None] * 3,
            "some": [None, 1.5, 2.0],
        }[kind][:n]
        st = GraphState(n)
        st.set("one", "x", h.arr(x[:n]) if n > 1 else x[0])
        if n == 1:
            v = val[0]
        elif kind == "vector":
            v = h.arr([h.flat(a) for a in val])
        else:
            v = h.arr(val) if kind == "number" else np.array(val)
        st.set("two", "v", v)
        st.set("two", "x", h.arr(x[3 - n :]) if n > 1 else x[2])
        with Scratch() as d:
            p = os.path.join(d, "s.ecsv")
            st.save_to_file(p)
            back = GraphState.from_file(p)
            h.check(h.raises(lambda: st.save_to_file(p), OSError), "a file is not overwritten")
            st.save_to_file(p, overwrite=True)
            again = GraphState.from_file(p)
        for b in (back, again):
            h.same(b.num_samples, n, "number of samples")
            h.same({k: list(v) for k, v in b.states.items()}, {"one": ["x"], "two": ["v", "x"]}, "nodes and names in order")
            for node, name, want in (("one", "x", x[:n]), ("two", "x", x[3 - n :] if n > 1 else [x[2]]), ("two", "v", val)):
                got = b[node][name]
                if n == 1:
                    h.same(np.ndim(got), 1 if name == "v" and kind == "vector" else 0, "a single sample has no dimension of samples")
                    got = [got]
                h.same(len(got), n, "one value per sample")
                for g, w in zip(got, want):
                    if kind == "vector" and name == "v":
                        h.close(h.arr(h.flat(g)), w, "the values")
                    elif isinstance(w, bool):
                        h.same(bool(g), w, "the values")
                    elif isinstance(w, str) or w is None:
                        h.same(None if g is None else str(g), w, "the values")
                    else:
                        h.close1(g, w, "the values")
            h.check(b == st and st == b, "an equal state")
            other = st.copy()
            other.states["two"]["v"] = {"number": 9.0, "vector": 9.0, "whole": 4, "word": "zz", "yes-no": False, "none": "x", "some": "y"}[kind]
            h.check(not (b == other), "a different state is not equal")
        h.cover("end")

    return fn


def model(n):
    """A model evaluated with stored samples gives the fluxes of the samples that were stored."""

    def fn(h):
        from lightcurvelynx.graph_state import GraphState
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList
        from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel

        Toy = toy_sed_class()
        a, z = h.reals("a", n, -5.0, 5.0), h.reals("z", n, 0.01, 1.0)
        pick = h.pick("chosen", ("A", "B"))
        m1 = Toy(a=GivenValueList(list(a)), b=0.5, redshift=GivenValueList(list(z)), t0=1.0, node_label="A")
        m2 = Toy(a=3.0, c=1e-3, node_label="B")
        m = RandomMultiObjectModel([m1, m2], object_names=["A", "B"], node_label="M") if h.pick("model", ("one", "either")) == "either" else m1
        given = None if m is m1 else {"M": {"selected_object": pick if n == 1 else np.array([pick, "B"])}}
        st = m.sample_parameters(num_samples=n, given_args=given)
        with Scratch() as d:
            p = os.path.join(d, "s.ecsv")
            st.save_to_file(p)
            back = GraphState.from_file(p)
        if given is None:  # which parameters are fixed is not stored
            h.check(st == back, "an equal state")
        t, w = np.array([1.0, 2.5]), np.array([4000.0])
        h.close(m.evaluate_sed(t, w, back), m.evaluate_sed(t, w, st), "the fluxes of the stored samples")
        h.cover("end")

    return fn


def numbers(h):
    """Arrays: every format that can be written can be read, with all digits."""
    from lightcurvelynx.utils.io_utils import read_numpy_data, write_numpy_data

    ext = h.pick("ext", (".npy", ".npz", ".csv", ".ecsv", ".txt", ".dat"))
    shape = h.pick("shape", ((3,), (2, 3), (3, 2), (1, 2), (2, 1)))
    if 1 in shape and ext not in (".npy", ".npz"):
        shape = (2, 2)  # text files do not keep the shape of a single row or column
    x = h.reals("x", int(np.prod(shape)), -5.0, 5.0)
    a = h.arr(x).reshape(shape)
    with Scratch() as d:
        p = os.path.join(d, "a" + ext)
        write_numpy_data(p, a)
        b = read_numpy_data(p)
        h.close(b, a, "the array")
        write_numpy_data(p, a + 1.0)
        h.close(read_numpy_data(p), a + 1.0, "written again")
        h.check(h.raises(lambda: read_numpy_data(os.path.join(d, "other.npy")), FileNotFoundError), "no such file")
        touch(os.path.join(d, "x.bin"))
        h.check(h.raises(lambda: read_numpy_data(os.path.join(d, "x.bin")), ValueError), "unknown format")
        h.check(h.raises(lambda: write_numpy_data(os.path.join(d, "y.bin"), a), ValueError), "unknown format")
    h.cover("end")


def build(h, which, n=4):
    """A table of each survey, its column values, and the values of its survey."""
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.obs_table import ObsTable
    from lightcurvelynx.obstable.opsim import OpSim
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    seeing, sky = h.reals("seeing", n, 0.5, 2.0), h.reals("sky", n, 1.0, 9.0)
    zp, noise = h.reals("zp", n, 0.5, 3.0), h.real("noise", 0.0 if which == "LSST" else 0.5, 9.0)
    ra, dec, t = [10.0 + i for i in range(n)], [5.0 - i for i in range(n)], [3.0, 1.0, 2.0, 5.0]
    base = {"filter": ["r", "g", "r", "i"], "exptime": [30.0, 15.0, 20.0, 25.0]}
    if which == "plain":
        cols = {"RA": ra, "dec": dec, "time": t, "zp": h.arr(zp), "seeing": h.arr(seeing), **base}
        return ObsTable(pd.DataFrame(cols), colmap={"ra": "RA"}, radius=noise, survey_name="mine", bands={"g": 1.5, "r": 2}), ObsTable, None
    if which == "LSST":
        cols = {"fieldRA": ra, "fieldDec": dec, "observationStartMJD": t, "visitExposureTime": base["exptime"], "filter": base["filter"],
                "airmass": [1.0, 1.1, 1.2, 1.3], "seeingFwhmEff": h.arr(seeing), "skyBrightness": [20.0, 21.0, 19.0, 18.5], "numExposures": [1, 2, 1, 2]}  # fmt: skip
        if h.pick("zero points", ("derived", "given")) == "given":
            cols["zp_nJy"] = h.arr(zp)
        return OpSim(pd.DataFrame(cols), read_noise=noise), OpSim, {"read_noise": noise}
    if which == "ZTF":
        cols = {"ra": ra, "dec": dec, "maglim": [20.0, 20.5, 21.0, 19.5], "scibckgnd": h.arr(sky), "fwhm": h.arr(seeing), **base, "zp_nJy": h.arr(zp)}
        if h.pick("times", ("mjd", "dates")) == "mjd":
            cols["obsmjd"] = t
        else:
            cols["obsdate"] = [f"2018-03-{20 + int(x)} 06:00:00.000" for x in t]
        return ZTFObsTable(pd.DataFrame(cols), gain=noise), ZTFObsTable, {"gain": noise}
    kw = h.pick("kind", ("constant", "columns"))
    cols = {"ra": ra, "dec": dec, "time": t, **base, "zp": h.arr(zp)}
    if kw == "constant":
        cols.update(sky=h.arr(sky), psf_footprint=[2.0] * n)
        return FakeObsTable(pd.DataFrame(cols), const_flux_error={"g": 1.5, "r": noise, "i": 3.0}, radius=2.0), FakeObsTable, {"const_flux_error": {"g": 1.5, "r": noise, "i": 3.0}}
    return FakeObsTable(pd.DataFrame(cols), sky={"g": 2.0, "r": 3.0, "i": noise}, fwhm_px=2.5, read_noise=noise, dark_current=0.25, nexposure=2, radius=1.5), FakeObsTable, {"read_noise": noise, "dark_current": 0.25}


def same_table(h, got, want):
    h.same(type(got).__name__, type(want).__name__, "the same kind of table")
    h.same(len(got), len(want), "the same number of rows")
    h.same(sorted(got.columns), sorted(want.columns), "the same columns")
    for k in want.columns:
        for a, b in zip(h.flat(got[k].to_numpy()), h.flat(want[k].to_numpy()), strict=True):
            if isinstance(b, str):
                h.same(str(a), b, "the words of a column")
            else:
                h.close1(a, b, "the values of a column")
    h.same([str(f) for f in got.filters], [str(f) for f in want.filters], "the same filters")


def tables(which, form):
    """A table written and read, once or repeatedly, in part or as a whole, has the same rows, columns and noise."""

    def fn(h):
        ot, cls, again = build(h, which)
        rows = h.pick("rows", ("all", "some", "none of a filter"))
        if rows != "all":
            ot = ot.filter_rows(np.array([True, False, True, True]) if rows == "some" else [2, 0])
        rounds = h.pick("rounds", (1, 3))
        new = ot
        with Scratch() as d:
            for i in range(rounds):
                p = os.path.join(d, f"t{i}.{form}")
                if form == "db":
                    new.write_db(p)
                    kw = {"sql_query": "SELECT * FROM observations"} if which == "ZTF" else dict(again or {})
                    old, new = new, cls.from_db(p, **kw)
                    h.check(h.raises(lambda: old.write_db(p), ValueError), "a table is not overwritten")
                    old.write_db(p, overwrite=True)
                    same_table(h, cls.from_db(p, **kw), ot)
                    h.check(h.raises(lambda: cls.from_db(p, sql_query="SELECT * FROM other"), ValueError), "no such table")
                    h.check(h.raises(lambda: cls.from_db(p + "x"), FileNotFoundError), "no such file")
                else:
                    new.write_parquet(p)
                    old, new = new, cls.from_parquet(p)
                    h.check(h.raises(lambda: old.write_parquet(p), FileExistsError), "a file is not overwritten")
                    old.write_parquet(p, overwrite=True)
                    same_table(h, cls.from_parquet(p), ot)
                    h.check(h.raises(lambda: cls.from_parquet(p + "x"), FileNotFoundError), "no such file")
                    h.same(sorted(new.survey_values), sorted(ot.survey_values), "the same survey values")
                    for k, v in ot.survey_values.items():
                        if isinstance(v, (c.Sym, float)) and not isinstance(v, bool):
                            h.close1(new.survey_values[k], v, "the same survey values")
                        elif isinstance(v, dict):
                            h.same(sorted(new.survey_values[k]), sorted(v), "the same survey values")
                            for b in v:
                                h.close1(new.survey_values[k][b], v[b], "the same survey values")
                        else:
                            h.same(new.survey_values[k], v, "the same survey values")
        same_table(h, new, ot)
        if which != "plain" and not (form == "db" and which == "ZTF"):
            f = h.reals("flux", 2, 0.0, 10.0)
            idx = np.array([1, 0])
            with np.errstate(all="ignore"):
                a = h.flat(new.bandflux_error_point_source(h.arr(f), idx))
                b = h.flat(ot.bandflux_error_point_source(h.arr(f), idx))
            for x, y in zip(a, b, strict=True):
                h.close1(x, y, "the same noise")
        h.cover("end")

    return fn


class Pooch:
    """The network: stores the file, or nothing."""

    def __init__(self, works):
        self.log, self.works = [], works

    def retrieve(self, url, known_hash=None, fname=None, path=None, **k):
        p = os.path.join(str(path), fname)
        if known_hash is None and os.path.exists(p):
            return p  # pooch trusts a file that it has no hash of
        self.log.append((url, str(path), fname))
        if self.works == "raises":
            raise OSError("no network")
        if self.works == "none":
            return None
        if self.works:
            with open(p, "w") as f:
                f.write("new")
        return p


def downloads(h):
    """A file is only fetched when it is not there or when asked, and into its own place; failures are reported."""
    import lightcurvelynx.utils.data_download as m

    keep = m.pooch
    there, force = h.pick("there", (False, True)), h.pick("force", (False, True))
    works = h.pick("works", (True, False, "none", "raises"))
    url = h.pick("url", ("https://example.org/f?x=1", None, ""))
    m.pooch = net = Pooch(works)
    try:
        with Scratch() as d:
            p = os.path.join(d, "a", "b", "f.dat")
            if there:
                os.makedirs(os.path.dirname(p))
                with open(p, "w") as f:
                    f.write("old")
            fetch = force or not there
            if fetch and not url:
                h.check(h.raises(lambda: m.download_data_file_if_needed(p, url, force_download=force), ValueError), "no address")
                h.same(net.log, [], "nothing is fetched")
                h.cover("end")
                return
            if fetch and works == "raises":
                h.check(h.raises(lambda: m.download_data_file_if_needed(p, url, force_download=force), OSError), "the failure is reported")
                ok = False
            else:
                ok = m.download_data_file_if_needed(p, url, force_download=force)
            h.same(len(net.log), int(fetch), "fetched only when needed, and whenever asked")
            if fetch:
                h.same(net.log[0][0], url, "from its address")
            h.same(bool(ok), not fetch or works is True, "the result says whether the file was fetched")
            h.same(os.path.exists(p), there or bool(ok), "a file that cannot be fetched anew is kept")
            if ok or there:
                with open(p) as f:
                    h.same(f.read(), "new" if fetch and ok else "old", "the file")
            if there or ok:
                h.same(os.listdir(os.path.dirname(p)), ["f.dat"], "nothing else is left")
    finally:
        m.pooch = keep
    h.cover("end")


def address(h):
    """A table kept at an address is fetched once into its own place and read from there."""
    import lightcurvelynx.obstable.opsim as m

    ot, cls, kw = build(h, "LSST")
    works, force = h.pick("works", (True, False)), h.pick("force", (False, True))
    log = []
    keep = m.download_data_file_if_needed, m._LIGHTCURVELYNX_BASE_DATA_DIR
    with Scratch() as d:

        def fetch(path, url, force_download=False):
            log.append((str(path), url, bool(force_download)))
            if not works:
                return False
            if force_download or not os.path.exists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                ot.write_db(path, overwrite=True)
            return True

        m.download_data_file_if_needed, m._LIGHTCURVELYNX_BASE_DATA_DIR = fetch, Path(d)
        try:
            for url in ("https://example.org/sims/a_v1.db", "https://example.org/sims/b.db"):
                if not works:
                    h.check(h.raises(lambda url=url: cls.from_url(url, force_download=force), RuntimeError), "a failure is reported")
                    continue
                new = cls.from_url(url, force_download=force)
                h.same(log[-1], (os.path.join(d, "opsim", url.split("/")[-1]), url, force), "each address has its own place")
                same_table(h, new, ot)
        finally:
            m.download_data_file_if_needed, m._LIGHTCURVELYNX_BASE_DATA_DIR = keep
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


def cases(tier):
    p = dict(patches=patches)
    out = [Case(f"samples-{n}", _e(samples(n)), bounds=f"{n} samples, 3 parameters of 7 kinds", **p) for n in (1, 2, 3)]
    out += [Case(f"model-{n}", _e(model(n)), bounds=f"{n} samples, 2 models", **p) for n in (1, 2)]
    out += [Case("arrays", _e(numbers), bounds="6 formats, 5 shapes", **p)]
    for w in ("plain", "LSST", "ZTF", "fake"):
        for f in ("db", "parquet"):
            out.append(Case(f"{w}-{f}", _e(tables(w, f)), warm=False, bounds="4 rows, filtered or not, 1 or 3 rounds", **p))
    out += [Case("address", _e(address), bounds="2 addresses", **p)]
    out += [Case("downloads", _e(downloads), bounds="a file that exists or not; concrete contents", **p)]
    return out
