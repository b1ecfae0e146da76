"""Detector footprints: each point is judged in the frame of its own pointing."""

import math
from types import SimpleNamespace

import numpy as np

from props import c07
from symx import arrays
from symx.run import Case


class _Angle:
    def __init__(self, v):
        self.deg = v
        self.degree = v


def offset(ra, dec, cra, cdec, rot):
    """A stand-in for the spherical rotation: any function of all five that wraps like a longitude."""
    lon = (ra - cra) + 0.01 * (dec - cdec) * rot
    return lon - 360.0 * np.floor(lon / 360.0), (dec - cdec) - 0.001 * rot


def deg(q):
    return q.to_value("deg") if hasattr(q, "to_value") else q


class Frame:
    def __init__(self, origin, rotation):
        self.o, self.rot = origin, rotation


class Coord:
    """astropy's SkyCoord with the rotation replaced."""

    def __init__(self, ra=None, dec=None, unit=None, frame="icrs"):
        self.ra, self.dec = _Angle(deg(ra)), _Angle(deg(dec))
        self.lon, self.lat = self.ra, self.dec

    def skyoffset_frame(self, rotation=None):
        return Frame(self, deg(rotation))

    def transform_to(self, f):
        lon, lat = offset(self.ra.deg, self.dec.deg, f.o.ra.deg, f.o.dec.deg, f.rot)
        out = Coord(0.0, 0.0)
        out.lon, out.lat = _Angle(lon), _Angle(lat)
        return out


class Wcs:
    """A linear map from offsets to pixels."""

    def __init__(self, naxis=2):
        self.wcs = self
        self.ctype, self.crval, self.crpix, self.cdelt = None, [0.0, 0.0], [1.0, 1.0], [1.0, 1.0]

    def world_to_pixel(self, p):
        x, y = p.ra.deg, p.dec.deg
        return ((x - self.crval[0]) / self.cdelt[0] + self.crpix[0] - 1.0, (y - self.crval[1]) / self.cdelt[1] + self.crpix[1] - 1.0)


class Box:
    def __init__(self, x0, x1, y0, y1):
        self.ixmin, self.ixmax, self.iymin, self.iymax = x0, x1, y0, y1


class Region:
    """A rectangle of pixels that is not symmetric."""

    def __init__(self, x0, x1, y0, y1):
        self.lim = (x0, x1, y0, y1)
        self.bounding_box = Box(*self.lim)

    def contains(self, p):
        x0, x1, y0, y1 = self.lim
        return (p.x > x0) & (p.x < x1) & (p.y > y0) & (p.y < y1)


class Pix:
    def __init__(self, x=None, y=None):
        self.x, self.y = x, y


class Sky:
    """A region on the sky."""

    def to_pixel(self, wcs):
        (c,) = [self.center] if hasattr(self, "center") else [Coord(0.0, 0.0)]
        x, y = wcs.world_to_pixel(c)
        w, h = deg(self.width) / wcs.cdelt[0] / 2.0, deg(self.height) / wcs.cdelt[1] / 2.0
        return Region(x - w, x + w, y - h, y + h)


class Rect(Sky):
    def __init__(self, center=None, width=None, height=None, angle=None, **kw):
        assert deg(angle) == 0.0 and center.ra.deg == 0.0 and center.dec.deg == 0.0
        self.center, self.width, self.height = center, width, height


def inside(lim, lon, lat, scale):
    """Inside of the limits (in pixels), for an offset from -180 to 180 degrees."""
    x0, x1, y0, y1 = lim
    return lambda h: h.And(lon > x0 * scale, lon < x1 * scale, lat > y0 * scale, lat < y1 * scale)


def iff(h, a, b, what):
    h.check(h.Or(h.And(a, b), h.And(h.Not(a), h.Not(b))), what)


class Unit:
    """An angle of any number, in degrees."""

    __array_ufunc__ = None

    def __init__(self, k=1.0):
        self.k = k

    def __rmul__(self, v):
        return v if self.k == 1.0 else v * self.k

    __mul__ = __rlshift__ = __rmul__


UNITS = SimpleNamespace(deg=Unit(), degree=Unit(), rad=Unit(180.0 / math.pi), arcmin=Unit(1 / 60.0), arcsec=Unit(1 / 3600.0), hourangle=Unit(15.0), Quantity=lambda v, unit=Unit(): v * unit)


def geometry(h, n):
    ra, dec = h.reals("ra", n, 0.0, 360.0), h.reals("dec", n, -80.0, 80.0)
    cra, cdec, rot = h.reals("cra", n, 0.0, 360.0), h.reals("cdec", n, -80.0, 80.0), h.reals("rot", n, 0.0, 90.0)
    return ra, dec, cra, cdec, rot


def frame(h, ra, dec, cra, cdec, rot):
    lon = (ra - cra) + 0.01 * (dec - cdec) * rot
    lon = lon - 360.0 * h.floor(lon / 360.0)
    return h.ite(lon > 180.0, lon - 360.0, lon), (dec - cdec) - 0.001 * rot


LIM = (-30.0, 200.0, -100.0, 20.0)


def contains(n):
    """Each point with its own centre and rotation, or one of them for all points."""

    def fn(h):
        from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

        ra, dec, cra, cdec, rot = geometry(h, n)
        one = h.pick("centre", ("each", "one", "number"))
        turn = h.pick("rotation", ("each", "one", "number", "none"))
        scalar = n == 1 and h.pick("scalar", (True, False))
        scale = h.pick("scale", (0.1, 0.01))
        fp = DetectorFootprint(Region(*LIM), pixel_scale=scale)

        def arg(v, how):
            if how == "none":
                return None
            if how == "each":
                return v[0] if scalar else h.arr(v)
            return h.arr(v[:1]) if how == "one" else v[0]

        got = fp.contains(ra[0] if scalar else h.arr(ra), dec[0] if scalar else h.arr(dec), arg(cra, one), arg(cdec, one), rotation=arg(rot, turn))
        h.same(h.shape(got), () if scalar else (n,), "an answer per point")
        for i, g in enumerate(h.flat(got)):
            c = i if one == "each" else 0
            r = 0.0 if turn == "none" else rot[i if turn == "each" else 0]
            lon, lat = frame(h, ra[i], dec[i], cra[c], cdec[c], r)
            for v, lims in ((lon, LIM[:2]), (lat, LIM[2:])):
                for b in lims:
                    h.assume(h.abs(v - b * scale) > 1e-6)
            h.assume(h.abs(lon - 180.0) > 1e-6)
            iff(h, g, inside(LIM, lon, lat, scale)(h), "inside of the region in the frame of its pointing")
        h.cover("end")

    return fn


def whole(h):
    """Points given as whole numbers around pointings that are not."""
    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    n, scale = 2, 0.1
    ra, dec = [h.int(f"ra{i}", 0, 359) for i in range(n)], [h.int(f"dec{i}", -80, 80) for i in range(n)]
    cra, cdec = h.real("cra", 0.0, 360.0), h.real("cdec", -80.0, 80.0)
    rot = [h.int(f"rot{i}", 0, 90) for i in range(n)]
    a = (lambda v: arrays.wrap(v)) if h.sym else (lambda v: np.array(v, dtype=int))
    got = DetectorFootprint(Region(*LIM), pixel_scale=scale).contains(a(ra), a(dec), cra, cdec, rotation=a(rot))
    for i, g in enumerate(h.flat(got)):
        lon, lat = frame(h, ra[i], dec[i], cra, cdec, rot[i])
        for v, lims in ((lon, LIM[:2]), (lat, LIM[2:])):
            for b in lims:
                h.assume(h.abs(v - b * scale) > 1e-6)
        h.assume(h.abs(lon - 180.0) > 1e-6)
        iff(h, g, inside(LIM, lon, lat, scale)(h), "inside of the region in the frame of its pointing")
    h.cover("end")


def shapes(h):
    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    fp = DetectorFootprint(Region(*LIM), pixel_scale=0.1)
    ra, dec, cra, cdec, rot = geometry(h, 3)
    a = h.arr
    for what, call in (
        ("points", lambda: fp.contains(a(ra), a(dec[:2]), cra[0], cdec[0])),
        ("centres", lambda: fp.contains(a(ra), a(dec), a(cra[:2]), a(cdec[:2]))),
        ("centres in declination", lambda: fp.contains(a(ra), a(dec), a(cra), a(cdec[:2]))),
        ("rotations", lambda: fp.contains(a(ra), a(dec), a(cra), a(cdec), rotation=a(rot[:2]))),
    ):
        h.check(h.raises(call, ValueError), f"{what} of another number are refused")
    s = h.real("scale", -1.0, 0.0)
    h.check(h.raises(lambda: DetectorFootprint(Region(*LIM)), ValueError), "a scale is needed")
    h.check(h.raises(lambda: DetectorFootprint(Region(*LIM), pixel_scale=s), ValueError), "a positive scale is needed")
    lo, w = h.reals("lo", 2, -5.0, 5.0), h.reals("w", 2, 0.1, 5.0)
    ok = h.And(*[h.And(x <= 0.0, x + y >= 0.0) for x, y in zip(lo, w)])
    made = not h.raises(lambda: DetectorFootprint(Region(lo[0], lo[0] + w[0], lo[1], lo[1] + w[1]), pixel_scale=0.1), ValueError)
    h.same(made, h.true(ok), "the region lies around the centre")
    h.cover("end")


def rect(h):
    """A rectangle of a width along the longitude and a height along the latitude."""
    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    w, t = h.reals("size", 2, 0.5, 5.0)
    own = h.pick("wcs", (False, True))
    kw = dict(pixel_scale=0.1)
    if own:
        wcs = Wcs()
        wcs.cdelt, wcs.crpix = [0.2, 0.05], [1.5, 3.0]
        kw = dict(wcs=wcs)
    fp = DetectorFootprint.from_rect(w, t, **kw)
    ra, dec, cra, cdec, rot = geometry(h, 1)
    lon, lat = frame(h, ra[0], dec[0], cra[0], cdec[0], rot[0])
    h.assume(h.And(h.abs(h.abs(lon) - w / 2) > 1e-6, h.abs(h.abs(lat) - t / 2) > 1e-6, h.abs(lon - 180.0) > 1e-6))
    got = fp.contains(ra[0], dec[0], cra[0], cdec[0], rotation=rot[0])
    iff(h, got, h.And(h.abs(lon) < w / 2, h.abs(lat) < t / 2), "inside of the rectangle around the pointing")
    h.cover("end")


def table(h):
    """A survey's pixel scale is in arcseconds per pixel."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    q, pts = (120.0, 10.0), [(118.0, 12.0), (121.5, 9.0), (119.5, 30.0)]
    scale = h.real("scale", 10.0, 1000.0)
    rot = h.reals("rot", 3, 0.0, 90.0)
    own = h.pick("wcs", (False, True))
    given = h.pick("given_as", ("region", "footprint"))
    kw = dict(pixel_scale=scale)
    step = scale / 3600.0
    if own:
        kw["wcs"] = Wcs()
        step = kw["wcs"].cdelt[0] = kw["wcs"].cdelt[1] = 0.05
    fp = Region(*LIM)
    if given == "footprint":
        from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

        step = 0.02
        fp = DetectorFootprint(fp, pixel_scale=step)
    ot = ObsTable({"ra": [p[0] for p in pts], "dec": [p[1] for p in pts], "time": [0.0, 1.0, 2.0], "rotation": rot}, radius=10.0, detector_footprint=fp, **kw)
    hits = [int(i) for i in ot.range_search(*q)]
    h.check(2 not in hits, "a pointing out of range")
    for i in (0, 1):
        lon, lat = frame(h, *q, *pts[i], rot[i])
        for v, lims in ((lon, LIM[:2]), (lat, LIM[2:])):
            for b in lims:
                h.assume(h.abs(v - b * step) > 1e-6)
        iff(h, i in hits, inside(LIM, lon, lat, step)(h), "the pointings whose footprint covers the query")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


def patches(symbolic):
    from lightcurvelynx.astro_utils import detector_footprint as m
    from lightcurvelynx.obstable import obs_table

    return c07.patches(symbolic) + [(obs_table, "Region", Region), (m, "u", UNITS), (m, "SkyCoord", Coord), (m, "WCS", Wcs), (m, "PixCoord", Pix), (m, "SkyRegion", Sky), (m, "RectangleSkyRegion", Rect)]


def cases(tier):
    out = [Case("shapes", _e(shapes), bounds="3 points; regions of any place and size", patches=patches), Case("rect", _e(rect), bounds="any size, point, centre and rotation", patches=patches)]
    out.append(Case("whole", _e(whole), warm=False, bounds="2 points of any whole degrees", patches=patches))
    out.append(Case("table", _e(table), bounds="3 pointings, any rotations, any pixel scale", patches=patches))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append(Case(f"contains-{n}", _e(contains(n)), warm=n == 1, bounds=f"{n} points, centres and rotations", patches=patches, max_paths=20000))
    return out
