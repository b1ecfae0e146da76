"""Groups of passbands: lookup, the shared wavelength grid, band fluxes."""

import os
import shutil
import tempfile

import numpy as np

from props.c15 import trap
from symx.run import Case


def band(h, name, xs, survey="S", T=None, **kw):
    from lightcurvelynx.astro_utils.passbands import Passband

    T = T if T is not None else h.reals(f"T_{survey}_{name}", len(xs), 0.05, 1.0)
    return Passband(h.arr([[x, t] for x, t in zip(xs, T)]), survey, name, **{"delta_wave": None, "trim_quantile": None, **kw})


GRIDS = {
    "apart": ([400.0, 410.0, 420.0], [500.0, 510.0, 520.0], [450.0, 460.0]),
    "same-phase": ([400.0, 410.0, 420.0], [410.0, 420.0, 430.0], [400.0, 430.0]),
    "interleaved": ([400.0, 410.0, 420.0], [405.0, 415.0, 425.0], [402.0, 410.0, 425.0]),
    "rounded": ([400.0, 410.0, 420.0], [400.0000000001, 410.0000000001, 420.0000000001], [399.9999999999, 430.0]),
}


def check_group(h, g, bands, label):
    """The shared grid and the band flux of any flux density on it."""
    waves = [float(v) if not h.sym else v for v in h.flat(g.waves)]
    every = [w for b in bands for w in h.flat(b.waves)]
    for a, b in zip(waves, waves[1:]):
        h.check(a < b, f"{label}: an increasing grid")
    for w in waves:
        h.check(h.Or(*[w == e for e in every]), f"{label}: only wavelengths of the passbands")
    lo, hi = g.wave_bounds()
    h.close1(lo, waves[0], f"{label}: lower bound")
    h.close1(hi, waves[-1], f"{label}: upper bound")
    F = [h.reals(f"F{label}{i}_", len(waves), 0.0, 10.0) for i in range(2)]
    fa = h.arr(F)
    out = g.fluxes_to_bandfluxes(fa)
    h.same(sorted(out), sorted(b.full_name for b in bands), f"{label}: one result per passband")
    for b in bands:
        bw = h.flat(b.waves)
        idx = []
        for w in bw:
            k = [i for i, v in enumerate(waves) if h.true(h.abs(v - w) < 2e-5)]
            h.same(len(k), 1, f"{label}: each wavelength is on the grid once")
            idx.append(k[0])
        phi = h.flat(b.processed_transmission_table[:, 1])
        for got in (out[b.full_name], g.fluxes_to_bandflux(fa, b.full_name), b.fluxes_to_bandflux(h.arr([[r[k] for k in idx] for r in F]))):
            h.same(h.shape(got), (2,), f"{label}: one band flux per time")
            for i in range(2):
                h.close1(h.flat(got)[i], trap([F[i][k] * p for k, p in zip(idx, phi)], bw), f"{label}: the band flux of the passband's own wavelengths", rtol=1e-5, atol=1e-6)
    h.check(h.raises(lambda: g.fluxes_to_bandfluxes(fa[:, 1:]), ValueError), f"{label}: other grids refused")
    h.check(h.raises(lambda: g.fluxes_to_bandflux(fa, "missing"), (ValueError, KeyError)), f"{label}: unknown filter")


def grid(which):
    def fn(h):
        from lightcurvelynx.astro_utils.passbands import PassbandGroup

        xs = GRIDS[which]
        order = h.pick("order", ((0, 1, 2), (2, 0, 1), (1, 0)))
        bands = [band(h, "gri"[k], xs[k]) for k in order]
        check_group(h, PassbandGroup(bands), bands, "group")
        h.cover("end")

    return fn


def shifted(h):
    """A second passband at any offset from the first."""
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    d = h.real("d", -15.0, 25.0)
    for k in (-10.0, 0.0, 10.0, 20.0):
        h.assume(h.Or(h.abs(d - k) > 1e-4, h.abs(d - k) < 1e-8, d == k))
    a, b = band(h, "g", [400.0, 410.0, 420.0]), band(h, "r", [400.0 + d, 410.0 + d])
    check_group(h, PassbandGroup([a, b]), [a, b], "group")
    h.cover("end")


def growing(h):
    """Adding, replacing and reprocessing passbands updates the grid and the lookups."""
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    xs = GRIDS["interleaved"]
    a, b = band(h, "g", xs[0]), band(h, "r", xs[1])
    g = PassbandGroup([a])
    op = h.pick("op", ("add", "replace", "reprocess"))
    if op == "add":
        g.add_passband(b)
        check_group(h, g, [a, b], "added")
        h.same((len(g), sorted(g.filters), "r" in g, "S_r" in g), (2, ["g", "r"], True, True), "both known")
    elif op == "replace":
        new = band(h, "g", xs[1], T=h.reals("new", 3, 0.05, 1.0))
        g.add_passband(new)
        h.check(g["g"] is new and len(g) == 1, "replaced")
        check_group(h, g, [new], "replaced")
    else:
        g.add_passband(b)
        g.process_transmission_tables(h.pick("dw", (5.0, 20.0)), None)
        check_group(h, g, [a, b], "reprocessed")
    h.cover("end")


def lookup(h):
    """Full names, filter names, ambiguous names, selections and masks."""
    from lightcurvelynx.astro_utils.passbands import PassbandGroup

    xs = [400.0, 410.0]
    T = h.reals("T", 2, 0.1, 1.0)
    bands = [band(h, f, xs, s, T) for s, f in (("A", "g"), ("A", "r"), ("B", "g"), ("B", "i"))]
    names = [b.full_name for b in bands]
    wanted = h.pick("filters", (None, ["g"], ["A_g", "i"], ["r", "A_r"], ["A_g", "A_r", "B_g", "B_i"], ["A_r"], ["z"], ["g", "z"]))
    if wanted is not None and "z" in wanted:
        h.check(h.raises(lambda: PassbandGroup(bands, filters=wanted), ValueError), "a missing filter is refused")
        h.cover("end")
        return
    g = PassbandGroup(bands, filters=wanted)
    keep = [b for b in bands if wanted is None or b.full_name in wanted or b.filter_name in wanted]
    h.same([b.full_name for b in g], [b.full_name for b in keep], "the selected passbands in order")
    h.same(len(g), len(keep), "number of passbands")
    h.same(sorted(g.filters), sorted({b.filter_name for b in keep}), "filters")
    for b in bands:
        h.same(b.full_name in g, b in keep if False else any(b is k for k in keep), "known by full name")
        if any(b is k for k in keep):
            h.check(g[b.full_name] is b, "full name")
    for f in ("g", "r", "i", "z"):
        match = [b for b in keep if b.filter_name == f]
        h.same(f in g, len(match) > 0, "known by filter name")
        if len(match) == 1:
            h.check(g[f] is match[0], "filter name")
        else:
            h.check(h.raises(lambda f=f: g[f], KeyError), "ambiguous or unknown names are refused")
    ask = names + ["g", "r", "i", "z"]
    h.same([bool(v) for v in g.mask_by_filter(ask)], [k in g for k in ask], "mask of known filters")
    h.check(h.raises(lambda: PassbandGroup([]), ValueError) and h.raises(lambda: PassbandGroup(None), ValueError), "nothing given")
    h.check(h.raises(lambda: PassbandGroup(["g"]), TypeError), "not a passband")
    h.cover("end")


def repeated(h):
    """A file that gives a wavelength once, twice or more often: the average of what it gives; unordered or odd files are refused."""
    from lightcurvelynx.astro_utils.passbands import Passband

    d = tempfile.mkdtemp(prefix="symx-pb-")
    try:
        ext = h.pick("format", ("dat", "txt", "csv", "ecsv", "xml"))
        units = h.pick("units", ("A", "nm"))
        times = h.pick("times", ((1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 1, 2), (1, 1, 4)))
        k = 10.0 if units == "nm" else 1.0
        gx = [4000.0, 4050.0, 4100.0]
        vals = iter((0.5, 0.75, 0.25, 0.125, 0.375, 1.0))
        given = [[next(vals) for _ in range(m)] for m in times]
        rows = [(x / k, v) for x, vs in zip(gx, given) for v in vs]
        path = os.path.join(d, f"S_g.{ext}")

        def write(rows):
            with open(path, "w") as fh:
                if ext == "xml":
                    fh.write(VOT.format(unit={"A": "Angstrom"}.get(units, units), rows="".join(f"<TR><TD>{x}</TD><TD>{v}</TD></TR>" for x, v in rows)))
                else:
                    sep = "," if ext in ("csv", "ecsv") else " "
                    fh.writelines(["# a comment\n"] + [f"{x}{sep}{v}\n" for x, v in rows])

        def load():
            return Passband.from_file("S", "g", table_path=path, units=units, delta_wave=None, trim_quantile=None)

        write(rows)
        b = load()
        ys = [sum(vs) / len(vs) for vs in given]
        h.close(h.arr(h.flat(b.waves)), h.arr(gx), "one point per wavelength, in Angstrom", rtol=1e-6)
        F = h.reals("F", 3, 0.0, 10.0)
        D = trap([y / x for x, y in zip(gx, ys)], gx)
        want = trap([v * y / x for v, x, y in zip(F, gx, ys)], gx) / D
        h.close1(h.flat(b.fluxes_to_bandflux(h.arr([F])))[0], want, "band flux of the averaged table", rtol=1e-5, atol=1e-6)
        write([rows[-1]] + rows[1:-1] + [rows[0]])
        h.check(h.raises(load, ValueError), "an unordered file is refused")
        odd = os.path.join(d, "S_g.json")
        with open(odd, "w") as fh:
            fh.write("400 1\n410 1\n")
        h.check(h.raises(lambda: Passband.from_file("S", "g", table_path=odd), ValueError), "an unknown format is refused")
    finally:
        shutil.rmtree(d)
    h.cover("end")


def loading(h):
    """From dictionaries or a directory, absolute or relative: the tables of the files."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    d = tempfile.mkdtemp(prefix="symx-pb-")
    cwd = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "SRV"))
        xs, ys = [400.0, 405.0, 410.0], {"g": [0.5, 0.75, 0.25], "r": [0.1, 0.2, 0.3]}
        units = h.pick("units", ("A", "nm"))
        for f, y in ys.items():
            with open(os.path.join(d, "SRV", f"{f}.dat"), "w") as fh:
                fh.writelines(f"{x} {v}\n" for x, v in zip(xs, y))
        how = h.pick("how", ("dir", "relative-dir", "dicts", "shared"))
        filters = h.pick("filters", (None, ["g"], ["r"]))
        if how == "dir":
            g = PassbandGroup.from_dir(os.path.join(d, "SRV"), filters=filters, delta_wave=None, trim_quantile=None, units=units)
        elif how == "relative-dir":
            os.chdir(d)
            g = PassbandGroup.from_dir("SRV", filters=filters, delta_wave=None, trim_quantile=None, units=units)
        else:
            own = {"delta_wave": None, "trim_quantile": None, "units": units}
            ds = [{"survey": "SRV", "filter_name": f, "table_path": os.path.join(d, "SRV", f"{f}.dat"), **(own if how == "dicts" else {})} for f in ys]
            keys = [dict(v) for v in ds]
            g = PassbandGroup(ds, filters=filters, **(own if how == "shared" else {}))
            h.check(ds == keys, "the given dictionaries are not changed")
        h.same(sorted(b.full_name for b in g), sorted(f"SRV_{f}" for f in (filters or ys)), "passbands")
        k = 10.0 if units == "nm" else 1.0
        F = h.reals("F", 3, 0.0, 10.0)
        for f in filters or ys:
            b = g[f]
            h.close(h.arr(h.flat(b.waves)), h.arr([x * k for x in xs]), "wavelengths in Angstrom")
            D = trap([y / x / k for x, y in zip(xs, ys[f])], [x * k for x in xs])
            want = trap([v * y / (x * k) for v, x, y in zip(F, xs, ys[f])], [x * k for x in xs]) / D
            h.close1(h.flat(b.fluxes_to_bandflux(h.arr([F])))[0], want, "band flux of the file's table", rtol=1e-5, atol=1e-7)
        with open(os.path.join(d, "SRV", "bad.dat"), "w") as fh:
            fh.write("400 0.1 3\n405 0.2 4\n")
        h.check(h.raises(lambda: Passband.from_file("SRV", "bad", table_path=os.path.join(d, "SRV", "bad.dat")), ValueError), "three columns refused")
        h.check(h.raises(lambda: PassbandGroup.from_dir(os.path.join(d, "none")), ValueError), "no such directory")
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)
    h.cover("end")

VOT = """<?xml version="1.0"?>
<VOTABLE version="1.1" xmlns="http://www.ivoa.net/xml/VOTable/v1.1">
<RESOURCE type="results"><TABLE>
<FIELD name="Wavelength" ucd="em.wl" unit="{unit}" datatype="float"/>
<FIELD name="Transmission" datatype="float"/>
<DATA><TABLEDATA>
{rows}
</TABLEDATA></DATA></TABLE></RESOURCE></VOTABLE>
"""
ROMAN = ["F062", "F087", "F106", "F129", "F146", "F158", "F184", "F213"]


class Downloads:
    """Stands in for the network: the files are already where they would be stored; each request is recorded."""

    def __init__(self):
        self.log = []

    def __call__(self, path, url, force_download=False):
        self.log.append((str(path), url, force_download))
        return "missing" not in str(path)


class FakeBand:
    def __init__(self, wave, trans):
        self.wave, self.trans = wave, trans


def presets(h):
    """The presets and SVO: each filter gets its own table, in Angstrom, from its own file and address."""
    import sys
    import types

    import lightcurvelynx.astro_utils.passbands as m
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    which = h.pick("preset", ("LSST", "roman", "ZTF", "svo"))
    xs = [4000.0, 4050.0, 4100.0]
    d = tempfile.mkdtemp(prefix="symx-pb-")
    keep, old = m.download_data_file_if_needed, sys.modules.get("sncosmo")
    m.download_data_file_if_needed = dl = Downloads()
    try:
        force = h.pick("force", (False, True))
        kw = {"delta_wave": None, "trim_quantile": None}
        names = {"LSST": list("ugrizy"), "roman": ROMAN, "ZTF": list("gri"), "svo": ["G", "Grp"]}[which]
        survey = {"LSST": "LSST", "roman": "Roman", "ZTF": "ZTF", "svo": "Gaia"}[which]
        ys = {f: [0.1 + 0.05 * i, 0.3, 0.2 + 0.03 * i] for i, f in enumerate(names)}
        os.mkdir(os.path.join(d, survey))
        sel = h.pick("select", (None, 1, 2))
        want = names if sel is None or which == "svo" else names[::sel][:2]
        filters = None if sel is None else list(want)
        if which == "LSST":
            for f in names:
                with open(os.path.join(d, "LSST", f"{f}.dat"), "w") as fh:
                    fh.writelines(["# a comment\n"] + [f"{x / 10} {v}\n" for x, v in zip(xs, ys[f])])
            if h.pick("units", (False, True)):
                kw["units"] = "nm"
            g = PassbandGroup.from_preset(h.pick("spelling", ("LSST", "lsst")), table_dir=d, filters=filters, force_download=force, **kw)
        elif which == "roman":
            with open(os.path.join(d, "Roman", "roman_wfi_filters.ecsv"), "w") as fh:
                fh.write("# %ECSV 0.9\nWave " + "  ".join(reversed(names)) + "\n")
                fh.writelines(f"{x / 1e4} " + "  ".join(str(ys[f][i]) for f in reversed(names)) + "\n" for i, x in enumerate(xs))
            if h.pick("units", (False, True)):
                kw["units"] = "micron"
            if force:
                kw["force_download"] = True
            g = PassbandGroup.from_preset("Roman", table_dir=d, filters=filters, **kw)
        elif which == "ZTF":
            sys.modules["sncosmo"] = types.SimpleNamespace(get_bandpass=lambda n: FakeBand(h.arr(xs), h.arr(ys[n.removeprefix("ztf")])))
            g = PassbandGroup.from_preset("ZTF", table_dir=d, filters=filters)
        else:
            unit, k = h.pick("unit", (("AA", 1.0), ("nm", 0.1), ("Angstrom", 1.0), ("um", 1e-4)))
            for f in names:
                with open(os.path.join(d, "Gaia", f"{f}.xml"), "w") as fh:
                    fh.write(VOT.format(unit=unit, rows="".join(f"<TR><TD>{x * k:.6f}</TD><TD>{v}</TD></TR>" for x, v in zip(xs, ys[f]))))
            if unit == "um":
                h.check(h.raises(lambda: Passband.from_svo("Gaia.G", table_dir=d, **kw), ValueError), "an unknown unit is refused")
                h.cover("end")
                return
            if sel is None:
                b = [Passband.from_svo(f"Gaia.{f}", table_dir=d, force_download=force, **kw) for f in names]
                g = PassbandGroup(b)
            else:
                g = PassbandGroup.from_svo([f"Gaia.{f}" for f in names], table_dir=d, force_download=force, **kw)
        h.same(sorted(b.full_name for b in g), sorted(f"{survey}_{f}" for f in want), "passbands")
        F = h.reals("F", 3, 0.0, 10.0)
        for f in want:
            b = g[f]
            if which == "ZTF":  # resampled to the usual step
                h.close1(b.waves[0], xs[0], "wavelengths in Angstrom")
                h.close1(b.waves[1], xs[0] + 5.0, "the usual step")
                h.close1(b.waves[-1], xs[-1], "not trimmed again")
                t = b.processed_transmission_table
                for j in (0, 4, 10, 15, 20):
                    x = float(t[j, 0])
                    num = float(np.interp(x, xs, ys[f])) / x
                    h.close1(t[j, 1] * 1.0 / t[3, 1], num / (float(np.interp(float(t[3, 0]), xs, ys[f])) / float(t[3, 0])), "the table of the band", rtol=1e-6)
                continue
            h.close(h.arr(h.flat(b.waves)), h.arr(xs), "wavelengths in Angstrom", rtol=1e-6)
            D = trap([y / x for x, y in zip(xs, ys[f])], xs)
            flux = trap([v * y / x for v, x, y in zip(F, xs, ys[f])], xs) / D
            h.close1(h.flat(b.fluxes_to_bandflux(h.arr([F])))[0], flux, "band flux of the filter's table", rtol=1e-5, atol=1e-6)
        asked = {
            "LSST": [(os.path.join(d, "LSST", f"{f}.dat"), f"total_{f}.dat") for f in names],
            "roman": [(os.path.join(d, "Roman", "roman_wfi_filters.ecsv"), "Roman_effarea")],
            "ZTF": [],
            "svo": [(os.path.join(d, "Gaia", f"{f}.xml"), f"Gaia.{f}") for f in names],
        }[which]
        h.same(len(dl.log), len(asked), "one request for each file")
        for (path, url, fd), (wp, wu) in zip(dl.log, asked):
            h.same(path, wp, "stored below the table directory")
            h.check(wu in url and (which != "svo" or url.endswith("=" + wu)), "its own address")
            h.same(bool(fd), force, "forced downloads")
        h.check(h.raises(lambda: PassbandGroup.from_preset("other"), ValueError), "unknown preset")
        wrong = {"LSST": "A", "roman": "nm"}.get(which)
        if wrong:
            h.check(h.raises(lambda: PassbandGroup.from_preset(which, table_dir=d, units=wrong), ValueError), "wrong units are refused")
            h.check(h.raises(lambda: PassbandGroup.from_preset(which, table_dir=os.path.join(d, "missing")), RuntimeError), "a failed download is reported")
    finally:
        m.download_data_file_if_needed = keep
        sys.modules.pop("sncosmo", None)
        if old is not None:
            sys.modules["sncosmo"] = old
        shutil.rmtree(d)
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (shifted, growing, lookup, loading, repeated, presets):
    _e(fn)


def cases(tier):
    return [Case(f"grid-{g}", _e(grid(g)), bounds="2-3 passbands, 2 times, symbolic transmissions and flux densities") for g in GRIDS] + [
        Case("any-offset", shifted, bounds="2 passbands at a symbolic offset", time_limit=240),
        Case("growing", growing, bounds="add, replace, reprocess"),
        Case("lookup", lookup, bounds="4 passbands, 8 selections"),
        Case("repeated", repeated, bounds="5 file formats, 2 units, 5 ways of repeating 3 wavelengths; concrete tables"),
        Case("loading", loading, bounds="2 files with concrete tables"),
        Case("presets", presets, bounds="files with concrete tables in place of downloads; LSST, Roman, ZTF and SVO filters"),
    ]
