"""Text inputs: light curve libraries and grids are read completely and as written."""

import copy
import gzip
import os
import shutil
import tempfile

import numpy as np

from props.c17 import group
from props import c22, c25
from props.c19 import Tab, expected
from symx import arrays
from symx import core as c
from symx.run import Case


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="symx_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


class Table(Tab):
    """The part of an astropy table the readers use: columns copied from lists, metadata copied, text parsed into columns."""

    def __init__(self, cols=None, meta=None):
        super().__init__({k: np.array(v) if isinstance(v, np.ndarray) or v and isinstance(v[0], str) else arrays.wrap(list(v)) for k, v in cols.items()}, copy.deepcopy(meta))
        if len({len(v) for v in self.cols.values()}) > 1:
            raise ValueError("Inconsistent data column lengths")

    @classmethod
    def read(cls, path, format="ascii", comment=None, **k):
        if format not in ("ascii", "ascii.basic", "ascii.csv"):
            raise c.Unsupported(f"table format {format}")
        rows = []
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#"):
                    rows.append(line.split(",") if "csv" in format or "," in line else line.split())
        names, rows = rows[0], rows[1:]
        cols = {n: [] for n in names}
        for r in rows:
            for n, v in zip(names, r, strict=True):
                v = v.strip()
                cols[n].append(c.TOKENS[v] if v in c.TOKENS else float(v))
        for n, v in cols.items():
            if all(r[names.index(n)].strip().lstrip("+-").isdigit() for r in rows) and not any(isinstance(x, c.Sym) for x in v):
                cols[n] = np.array([int(x) for x in v])  # columns of whole numbers
        return GridTable(cols)


class GridTable(Table):
    def __getitem__(self, k):
        class Col:
            data = self.cols[k]

            def __getitem__(s, i):
                return s.data[i]

        return Col()


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.utils.io_utils as m

    return [(m, "Table", Table), (np, "loadtxt", loadtxt), *c22.patches(True), *c25.patches(True)]


def loadtxt(path, delimiter=None, comments="#", ndmin=0, **k):
    """numpy's reader of text, of numbers that may be symbols."""
    if k:
        raise c.Unsupported("loadtxt options")
    rows = []
    with open(path) as f:
        for line in f:
            line = line.split(comments)[0].strip()
            if line:
                rows.append([c.TOKENS[v.strip()] if v.strip() in c.TOKENS else float(v) for v in line.split(delimiter)])
    a = arrays.wrap(rows)
    while a.ndim > max(ndmin, 0) and 1 in a.shape:
        a = a.reshape([n for n in a.shape if n != 1])
    return a


DOC = """DOCUMENTATION:
PURPOSE: not data
FILTERS: xyz
START_EVENT: 77
DOCUMENTATION_END:
"""
HEAD = """
# a comment: ignored
SURVEY: test   # trailing: comment
FILTERS: {filters}
COMMENT: ignored
MODEL_PARNAMES: A,B
RECUR_CLASS: NON-RECUR
"""


def write(path, text):
    if str(path).endswith((".gz", ".gzip")):
        with gzip.open(path, "wt") as f:
            f.write(text)
    else:
        with open(path, "w") as f:
            f.write(text)


def events(h, counts, filters):
    """The text of a library and the values it contains."""
    text, want = (DOC if h.pick("intro", (True, False)) else "") + HEAD.format(filters=filters), []
    par = h.pick("parval", ("all", "first", "second"))
    extra = h.pick("extra", (None, 0, 1))
    doc = h.pick("doc", (0, 1, None))
    for e, n in enumerate(counts):
        if e == doc:
            text += "DOCUMENTATION:\n  NOTE: not metadata\n  S: 1.0 2.0 3.0\nDOCUMENTATION_END:\n"
        text += f"\nSTART_EVENT: {e + 5}\nNROW: {n}\n"
        ev = {"id": str(e + 5), "NROW": str(n), "type": [], "rows": [], "PARVAL": None, "RA": None}
        if par == "all" or (par == "first") == (e == 0):
            sep = h.pick(f"sep{e}", (",", "  "))
            ev["PARVAL"] = {"A": f"{e}", "B": f"{e + 0.5}"}
            text += f"PARVAL: {e}{sep}{e + 0.5}\n"
        if extra == e:
            ev["RA"] = "12.5"
            text += "RA: 12.5\n"
        for r in range(n):
            row = [h.real(f"e{e}t{r}", 100.0 * r, 100.0 * r + 50.0)] + [h.real(f"e{e}{f}{r}", 18.0, 24.0) for f in filters]
            kind = "T" if r == 0 and h.pick(f"kind{e}", ("S", "T")) == "T" else "S"
            ev["type"].append(kind)
            ev["rows"].append(row)
            text += f"{kind}: " + "  ".join(h.token(v) for v in row) + ("  # note: nothing\n" if r == 1 else "\n")
        text += f"END_EVENT: {e + 5}\n"
        want.append(ev)
    return text, want


def lclib(h):
    """Every event keeps exactly its own rows and metadata, and the metadata of the file."""
    from lightcurvelynx.utils.io_utils import read_lclib_data

    filters = h.pick("filters", ("gr", "r"))
    text, want = events(h, (2, 3), filters)
    name = h.pick("file", ("lib.TEXT", "lib.dat", "lib.txt.gz"))
    with Scratch() as d:
        write(os.path.join(d, name), text)
        got = read_lclib_data(os.path.join(d, name))
        h.check(h.raises(lambda: read_lclib_data(os.path.join(d, "absent.dat")), FileNotFoundError), "a missing file is reported")
        write(os.path.join(d, "lib.bin"), text)
        h.check(h.raises(lambda: read_lclib_data(os.path.join(d, "lib.bin")), ValueError), "unknown kinds of files are refused")
        for k, bad in enumerate(
            (
                text.replace("END_EVENT: 5", "END_EVENT: 6"),
                text.replace(f"FILTERS: {filters}\n", ""),
                text.replace("MODEL_PARNAMES: A,B", "MODEL_PARNAMES: A,B,C"),
                text.replace("\nS: ", "\nS: 1.0 ", 1),
            )
        ):
            write(os.path.join(d, f"bad{k}.dat"), bad)
            h.check(h.raises(lambda k=k: read_lclib_data(os.path.join(d, f"bad{k}.dat")), ValueError), "inconsistent files are refused")
    h.same(len(got), 2, "one table per event")
    for t, ev in zip(got, want):
        h.same(list(t.colnames), ["type", "time"] + list(filters), "the columns of the file")
        h.same([str(x) for x in t["type"]], ev["type"], "the kind of each row")
        for j, col in enumerate(["time"] + list(filters)):
            vals = h.flat(np.asarray(t[col]) if not h.sym else t[col])
            h.same(len(vals), len(ev["rows"]), "every row is read")
            for v, r in zip(vals, ev["rows"]):
                h.close1(v, r[j], f"the value of the row ({col})", rtol=1e-12)
        for k in ("id", "NROW"):
            h.same(t.meta.get(k), ev[k], "the metadata of the event")
        h.same(t.meta.get("SURVEY"), "test", "the metadata of the file")
        h.same(t.meta.get("RECUR_CLASS"), "NON-RECUR", "the metadata of the file")
        h.check("NOTE" not in t.meta and "DOCUMENTATION" not in t.meta and "PURPOSE" not in t.meta and "COMMENT" not in t.meta, "comments are not metadata")
        for k in ("PARVAL", "RA"):
            h.same(t.meta.get(k), ev[k], "metadata stays with its event")
    h.cover("end")


def library_model(h):
    """A model built from a library file gives each event's own light curve."""
    from lightcurvelynx.astro_utils.mag_flux import mag2flux
    from lightcurvelynx.models.lightcurve_template_model import MultiLightcurveTemplateModel

    g = group(h, "gr", symbolic=False)
    text = HEAD.format(filters="gr")
    templates = h.pick("templates", (0, 1, 2))
    evs = []
    for e in range(2):
        ts = [10.0 + e, 12.0, 15.0]
        mags = {f: h.reals(f"m{e}{f}", 3, 18.0, 24.0) for f in "gr"}
        base = {f: h.reals(f"b{e}{f}", 2, 18.0, 24.0) for f in "gr"}
        evs.append((ts, mags, base))
        text += f"START_EVENT: {e}\nPARVAL: 1,2\n" + "".join(f"T: {k} {h.token(base['g'][k])} {h.token(base['r'][k])}\n" for k in range(templates)) + "".join(f"S: {ts[r]} {h.token(mags['g'][r])} {h.token(mags['r'][r])}\n" for r in range(3)) + f"END_EVENT: {e}\n"
    forced = h.pick("forced", (None, 11.0, [10.0, 14.0]))
    j = h.pick("event", (0, 1))
    with Scratch() as d:
        p = os.path.join(d, "lib.dat")
        write(p, text)
        h.check(h.raises(lambda: MultiLightcurveTemplateModel.from_lclib_file(p, g, t0=1.0, forced_lc_t0=[1.0]), ValueError), "one reference per event")
        m = MultiLightcurveTemplateModel.from_lclib_file(p, g, t0=100.0, weights=[1.0 - j, float(j)], forced_lc_t0=forced, node_label="m")
    ts, mags, base = evs[j]
    ref = ts[0] if forced is None else (forced if np.ndim(forced) == 0 else forced[j])
    q = h.real("q", -8.0, 12.0)
    for t in ts:
        h.assume(h.abs(q + ref - t) > 1e-4)
    f = h.flat(m.evaluate_bandfluxes(g, h.arr([100.0 + q, 100.0 + q]), ["r", "g"], m.sample_parameters(num_samples=1)))
    for v, fl in zip(f, "rg"):
        fx = [mag2flux(x) for x in mags[fl]]
        k = [h.true(q + ref > t) for t in ts]
        if not k[0] or k[2]:
            h.close1(v, mag2flux(base[fl][0]) if templates else 0.0, "the first template, or nothing, outside the light curve", rtol=1e-5, atol=1e-6)
        else:
            a = 1 if k[1] else 0
            h.close1(v, fx[a] + (fx[a + 1] - fx[a]) / (ts[a + 1] - ts[a]) * (q + ref - ts[a]), "the light curve of the event", rtol=1e-5, atol=1e-2)
    h.cover("end")


def grid(h):
    """A grid file gives every value at its own place; files that are not grids are refused."""
    from lightcurvelynx.utils.io_utils import read_grid_data

    n0, n1 = h.pick("shape", ((2, 3), (3, 2), (3, 3), (1, 2)))
    x0, x1 = [-1.5, 2.0, 10.0][:n0], [100.0, 150.0, 300.0][:n1]
    v = [[h.real(f"v{i}{j}", -5.0, 5.0) for j in range(n1)] for i in range(n0)]
    rows = [(a, b, v[i][j]) for i, a in enumerate(x0) for j, b in enumerate(x1)]
    sep = h.pick("sep", ("  ", ","))

    def dump(rows, names="a b c"):
        out = "# a grid\n" + sep.join(names.split()) + "\n"
        for k, r in enumerate(rows):
            out += sep.join(h.token(x) for x in r) + "\n"
            if k == 0:
                out += "  # a comment\n"
        return out

    with Scratch() as d:
        def read(rows, **k):
            p = os.path.join(d, "grid.csv")
            with open(p, "w") as f:
                f.write(dump(rows))
            return read_grid_data(p, **k)

        validate = h.pick("validate", (False, True))
        a, b, vals = read(rows, validate=validate)
        h.same((h.shape(a), h.shape(b), h.shape(vals)), ((n0,), (n1,), (n0, n1)), "shapes")
        for g, w in zip(h.flat(a) + h.flat(b), x0 + x1):
            h.close1(g, w, "the axes")
        for g, w in zip(h.flat(vals), [x for r in v for x in r]):
            h.close1(g, w, "the value at its place")
        h.check(h.raises(lambda: read(rows[:-1] if len(rows) > 2 else rows[:1] + [(9.0, 9.0, 9.0)]), ValueError), "an incomplete grid is refused")
        if n0 > 1:
            swapped = rows[1:] + rows[:1]
            h.check(h.raises(lambda: read(swapped, validate=True), ValueError), "rows out of order are found when asked to validate")
            h.check(h.raises(lambda: read([(b, a, x) for a, b, x in rows], validate=True), ValueError), "columns out of order are found when asked to validate")
        with open(os.path.join(d, "two.csv"), "w") as f:
            f.write("a b\n1 2\n3 4\n")
        h.check(h.raises(lambda: read_grid_data(os.path.join(d, "two.csv")), ValueError), "three columns are needed")
        h.check(h.raises(lambda: read_grid_data(os.path.join(d, "absent.csv")), FileNotFoundError), "a missing file is reported")
    h.cover("end")


def grid_models(h):
    """Models made from a file of a grid or spectrum are those made from its numbers."""
    from lightcurvelynx.models.spline_model import SplineModel
    from lightcurvelynx.models.static_sed_model import StaticSEDModel
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

    kind = h.pick("kind", ("bicubic", "spline", "sed"))
    whole = h.pick("whole numbers", (False, True))
    x, y = [0.0, 1.0, 2.0, 3.0][: 3 if kind == "spline" else 4], [10.0, 20.0, 30.0]

    def number(k):
        return h.token(k) if not whole or isinstance(k, str) or not float(k).is_integer() else str(int(k))

    def values(name, n):
        return [float((3 * i + 2) % 7) for i in range(n)] if whole else h.reals(name, n, -5.0, 5.0)

    with Scratch() as d:
        if kind == "sed":
            n = h.pick("rows", (2, 3))
            w = [100.0, 200.0, 350.0][:n]
            f = values("f", n)
            form = h.pick("form", ("csv", "txt", "dat"))
            p = os.path.join(d, "sed." + form)
            sep = "," if form == "csv" else " "
            write(p, ("# wavelength, flux\n" if h.pick("comment", (True, False)) else "") + "".join(number(a) + sep + number(b) + "\n" for a, b in zip(w, f)))
            mod = StaticSEDModel.from_file(p, node_label="m")
            h.same(len(mod), 1, "one spectrum")
            tab = mod.sed_values[0]
            h.same(h.shape(tab), (2, n), "wavelengths and fluxes")
            for g, v in zip(h.flat(tab), w + f):
                h.close1(g, v, "the spectrum of the file")
            h.same(mod.node_label, "m", "further arguments reach the model")
            bad = os.path.join(d, "bad." + form)
            write(bad, "".join(sep.join("123") + "\n" for _ in range(3)))
            h.check(h.raises(lambda: StaticSEDModel.from_file(bad), ValueError), "two columns are needed")
        else:
            z = values("z", len(x) * len(y))
            p = os.path.join(d, "grid.dat")
            write(p, "# a grid\na b c\n" + "".join(" ".join(number(k) for k in (a, b, z[i * len(y) + j])) + "\n" for i, a in enumerate(x) for j, b in enumerate(y)))
            grid = h.arr([z[i * len(y) : (i + 1) * len(y)] for i in range(len(x))])
            if kind == "bicubic":
                scale = h.pick("scale", (None, 2, 0.5))
                got = BicubicInterpolator.from_grid_file(p, **({} if scale is None else {"scale_factor": scale}))
                want = BicubicInterpolator(np.array(x), np.array(y), grid)
                q = ([0.5, 1.25], [15.0, 30.0])
                for a, b in zip(h.flat(got(*map(np.array, q))), h.flat(want(*map(np.array, q)))):
                    h.close1(a, (scale or 1) * b, "the grid of the file, scaled", rtol=1e-4, atol=1e-3)
            else:
                amp = h.real("amp", -2.0, 2.0)
                kw = dict(amplitude=amp, time_degree=1, wave_degree=1, node_label="m", t0=1.0)
                got, want = SplineModel.from_file(p, **kw), SplineModel(np.array(x), np.array(y), grid, **kw)
                h.same((got.minwave(), got.maxwave(), got.node_label), (10.0, 30.0, "m"), "range and arguments")
                for a, b in zip(*(h.flat(m.evaluate_sed(np.array([1.5, 2.25]), np.array([12.0, 30.0]))) for m in (got, want))):
                    h.close1(a, b, "the model of the grid", rtol=1e-6, atol=1e-6)
                rows = open(p).read().split("\n")
                write(p, "\n".join(rows[:2] + rows[3:-1] + rows[2:3]) + "\n")
                h.check(h.raises(lambda: SplineModel.from_file(p, **kw), ValueError), "rows out of order are refused")
    h.cover("end")


for fn in (lclib, library_model, grid, grid_models):
    fn.must_cover = ("end",)


def cases(tier):
    p = dict(patches=patches)
    return [
        Case("light-curve-library", lclib, bounds="2 events of 2 and 3 rows, 1-2 filters, template rows, plain and compressed files", **p),
        Case("library-model", library_model, bounds="2 events of 3 rows", random=True, **p),
        Case("grid-models", grid_models, bounds="grids of 3 or 4 by 3 values, spectra of 2 or 3 points, real or whole numbers", **p),
        Case("grid", grid, bounds="grids up to 3x3, two separators", **p),
    ]
