"""Dust along the line of sight: the maps are asked at each sample's own position."""

import os
import tempfile

import numpy as np

from props.c24 import Dust
from props.common import listed, toy_flux, toy_sed_class
from symx import arrays
from symx.run import Case


class _Angle:
    def __init__(self, v):
        self.deg = v
        self.degree = v


class Coord:
    """astropy's SkyCoord: holds positions in degrees."""

    def __init__(self, ra=None, dec=None, frame="icrs", unit=None):
        assert frame == "icrs" and unit in ("deg", "degree", ("deg", "deg"))
        self.ra, self.dec = _Angle(ra), _Angle(dec)
        self.icrs = self


class Map:
    """A dust map that depends on the position."""

    def query(self, coords):
        ra, dec = coords.icrs.ra.deg, coords.icrs.dec.deg
        return 0.1 + 0.001 * ra + 0.0005 * dec


def value(ra, dec):
    return 0.1 + 0.001 * ra + 0.0005 * dec


def positions(h, n):
    ra, dec = h.reals("ra", n, 0.0, 359.9), h.reals("dec", n, -89.0, 89.0)
    return ra, dec


def wrapper(n):
    def fn(h):
        from lightcurvelynx.astro_utils.dustmap import DustmapWrapper

        ra, dec = positions(h, n)
        twice = h.pick("function", (False, True))
        nd = DustmapWrapper(Map(), ra=listed(h, ra), dec=listed(h, dec), node_label="dust", **(dict(ebv_func=lambda v: 2.0 * v + 0.01) if twice else {}))
        st = nd.sample_parameters(num_samples=n)
        got = nd.get_param(st, "ebv")
        h.same(h.shape(got), () if n == 1 else (n,), "a value per sample")
        for i, g in enumerate(h.flat(got)):
            v = value(ra[i], dec[i])
            h.close1(g, 2.0 * v + 0.01 if twice else v, "the map at the sample's position")
        h.check(h.raises(lambda: DustmapWrapper(Map(), ra=1.0), ValueError), "the position is needed")
        h.check(h.raises(lambda: DustmapWrapper(Map(), dec=1.0), ValueError), "the position is needed")
        h.check(h.raises(lambda: DustmapWrapper(None, ra=1.0, dec=1.0).compute_ebv(1.0, 1.0), ValueError), "a map is needed")
        h.cover("end")

    return fn


def custom(n):
    """Any function of a position can serve as a map."""

    def fn(h):
        from lightcurvelynx.astro_utils.dustmap import DustEBV

        ra, dec = positions(h, n)
        k = h.real("k", 0.0, 1.0)
        nd = DustEBV(lambda ra, dec, scale: scale * value(ra, dec), ra=listed(h, ra), dec=listed(h, dec), scale=k, node_label="dust")
        st = nd.sample_parameters(num_samples=n)
        for i, g in enumerate(h.flat(nd.get_param(st, "ebv"))):
            h.close1(g, k * value(ra[i], dec[i]), "the function at the sample's position")
        h.cover("end")

    return fn


def hemispheres(n):
    def fn(h):
        from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustmapWrapper

        a, b = h.real("north", 0.0, 1.0), h.real("south", 1.5, 2.0)
        ra, dec = positions(h, n)
        m = ConstantHemisphereDustMap(a, b)
        nd = DustmapWrapper(m, ra=listed(h, ra), dec=listed(h, dec), node_label="dust")
        st = nd.sample_parameters(num_samples=n)
        direct = h.flat(m.compute_ebv(ra[0] if n == 1 else h.arr(ra), dec[0] if n == 1 else h.arr(dec)))
        for i, g in enumerate(h.flat(nd.get_param(st, "ebv"))):
            want = h.ite(dec[i] >= 0.0, a, b)
            h.close1(g, want, "the value of the sample's hemisphere")
            h.close1(direct[i], want, "the value of the hemisphere")
        h.cover("end")

    return fn


class Maps:
    """sfdmap2's reader: remembers where it was told to look."""

    def __init__(self, mapdir=None, *a, **k):
        self.mapdir = str(mapdir)

    def ebv(self, ra, dec, *a, **k):
        return value(ra, dec)


FILES = ("SFD_dust_4096_ngp.fits", "SFD_dust_4096_sgp.fits")


class Pooch:
    """The downloader: fetches nothing, or files that lie in a folder of their own."""

    def __init__(self):
        self.calls, self.works, self.dir = 0, True, None

    def Untar(self, extract_dir=None, **k):  # noqa: N802
        self.dir = str(extract_dir)
        return None

    def retrieve(self, url=None, known_hash=None, processor=None, **k):
        self.calls += 1
        if self.works:
            os.makedirs(os.path.join(self.dir, "sfddata-master"), exist_ok=True)
            for f in FILES:
                open(os.path.join(self.dir, "sfddata-master", f), "w").close()


POOCH = Pooch()


def sfd(n):
    """The map's files are read from the folder given, or fetched into it when one is missing."""

    def fn(h):
        from lightcurvelynx.astro_utils.dustmap import SFDMap

        ra, dec = positions(h, n)
        there = h.pick("files", (0, 1, 2))
        POOCH.calls, POOCH.works = 0, h.pick("online", (True, False))
        with tempfile.TemporaryDirectory() as d:
            home = os.path.join(d, "maps")
            if there:
                os.makedirs(home)
                for f in FILES[:there]:
                    open(os.path.join(home, f), "w").close()
            make = lambda: SFDMap(home, ra=listed(h, ra), dec=listed(h, dec), node_label="dust")  # noqa: E731
            if there < 2 and not POOCH.works:
                h.check(h.raises(make, ValueError), "missing files are reported")
                h.same(POOCH.calls, 1, "one attempt to fetch them")
                return h.cover("end")
            nd = make()
            h.same(POOCH.calls, 0 if there == 2 else 1, "files are fetched only if one is missing")
            h.same(nd.dustmap.mapdir, home if there == 2 else os.path.join(home, "sfddata-master"), "the folder of the files")
            st = nd.sample_parameters(num_samples=n)
            for i, g in enumerate(h.flat(nd.get_param(st, "ebv"))):
                h.close1(g, value(ra[i], dec[i]), "the map at the sample's position")
        h.cover("end")

    return fn


def dimmed(n):
    """A model behind a map: each sample is dimmed by the dust at its own position."""

    def fn(h):
        from lightcurvelynx.astro_utils.dustmap import DustmapWrapper
        from lightcurvelynx.effects.extinction import ExtinctionEffect

        Toy = toy_sed_class()
        ra, dec = positions(h, n)
        a = h.reals("a", n, 1.0, 10.0)
        mod = Toy(a=listed(h, a), ra=listed(h, ra), dec=listed(h, dec), node_label="m")
        how = h.pick("how", ("node", "output"))
        nd = DustmapWrapper(Map(), ra=mod.ra, dec=mod.dec, node_label="dust")
        mod.add_effect(ExtinctionEffect(Dust(), ebv=nd if how == "node" else nd.ebv, frame="observer"))
        st = mod.sample_parameters(num_samples=n)
        got = h.flat(mod.evaluate_sed(np.array([1.0]), np.array([4000.0, 8000.0]), st))
        for i in range(n):
            for k, w in enumerate((4000.0, 8000.0)):
                h.close1(got[i * 2 + k], toy_flux((a[i], 0.0, 0.0, 0.0), 1.0, w) * (1.0 - value(ra[i], dec[i]) * (0.1 + 1e-4 * w)), "dimmed by the dust at the sample's position", rtol=1e-6, atol=1e-7)
        h.cover("end")

    return fn


def single(n):
    """A node of one variable hands out the values it is given, under the name it is given."""

    def fn(h):
        from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

        v = h.reals("v", n, -5.0, 5.0)
        nd = SingleVariableNode("A", listed(h, v), node_label="one")
        user = SingleVariableNode("B", nd.A, node_label="two")
        st = user.sample_parameters(num_samples=n)
        for x in (nd.get_param(st, "A"), user.get_param(st, "B")):
            for i, g in enumerate(h.flat(x)):
                h.close1(g, v[i], "the value given")
        h.cover("end")

    return fn


def _e(f):
    f.must_cover = ("end",)
    return f


def patches(symbolic):
    from lightcurvelynx.astro_utils import dustmap
    from sfdmap2 import sfdmap

    return [(dustmap, "pooch", POOCH), (sfdmap, "SFDMap", Maps)] + ([(dustmap, "SkyCoord", Coord)] if symbolic else [])


def cases(tier):
    out = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
        b = f"{n} samples at any positions"
        out += [Case(f"{f.__name__}-{n}", _e(f(n)), bounds=b, patches=patches) for f in (wrapper, custom, hemispheres, sfd, dimmed, single)]
    return out
