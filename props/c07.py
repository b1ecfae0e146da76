"""Spatial and temporal search: exactly the pointings within the radius and the time window."""

import math

import numpy as np

from symx import arrays
from symx import core as c
from symx.run import Case

POINTINGS = [(0.2, 0.0), (359.7, 1.0), (120.0, 89.5), (310.0, 88.9), (179.5, -60.0), (181.0, -59.0), (45.0, 10.0)]
QUERIES = {
    "wrap": (360.0, 0.5),
    "negative": (-0.4, -1.0),
    "pole": (60.0, 90.0),
    "south": (180.25, -60.5),
    "field": (40.0, 12.0),
}


def sep(a, b):
    """Great-circle separation in degrees (haversine)."""
    (r1, d1), (r2, d2) = [(math.radians(x), math.radians(y)) for x, y in (a, b)]
    s = math.sin((d1 - d2) / 2) ** 2 + math.cos(d1) * math.cos(d2) * math.sin((r1 - r2) / 2) ** 2
    return math.degrees(2 * math.asin(min(1.0, math.sqrt(s))))


class Tree:
    """Contract of scipy's KDTree: the indices of the points within the distance."""

    def __init__(self, data, *a, **k):
        self.data = arrays.wrap(data)

    def _one(self, q, r):
        d = arrays.base(self.data)
        out = []
        for i in range(d.shape[0]):
            d2 = 0.0
            for k in range(d.shape[1]):
                e = c.s_sub(d[i, k], q[k])
                d2 = c.s_add(d2, c.s_mul(e, e))
            if isinstance(d2, float) or not isinstance(r, c.Sym):
                within = c.s_le(d2, c.s_mul(r, r)) if isinstance(d2, c.Sym) else c.s_le(math.sqrt(max(float(d2), 0.0)), r)
            else:
                within = c.s_and(c.s_ge(r, 0.0), c.s_le(d2, c.s_mul(r, r)))
            if c.truth(within):
                out.append(i)
        return out

    def query_ball_point(self, x, r, **k):
        x = arrays.base(arrays.wrap(x))
        if x.ndim == 1:
            return self._one(x.tolist(), r)
        rs = arrays.base(arrays.wrap(r)).ravel().tolist() if np.ndim(r) or isinstance(r, np.ndarray) else [r]
        if len(rs) == 1:
            rs = rs * x.shape[0]
        out = np.empty(x.shape[0], dtype=object)
        for i in range(x.shape[0]):
            out[i] = self._one(x[i].tolist(), rs[i])
        return out


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.obstable.obs_table as m

    return [(m, "KDTree", Tree)]


def table(h, times, **kw):
    from lightcurvelynx.obstable.obs_table import ObsTable

    n = len(times)
    return ObsTable({"ra": [p[0] for p in POINTINGS[:n]], "dec": [p[1] for p in POINTINGS[:n]], "time": times}, **kw)


def ints(x):
    return sorted(int(i) for i in x)


def radius_search(h):
    """A concrete sky, every radius."""
    names = list(QUERIES)
    q = QUERIES[h.pick("query", names)]
    r = h.real("radius", 0.01, 178.0)
    seps = [sep(q, p) for p in POINTINGS]
    all_seps = seps + [sep((45.0, -80.0), p) for p in POINTINGS]
    h.trig_anchors([f * math.radians(s + d) for s in all_seps for f in (0.5, 1.0) for d in (-1e-4, 1e-4)])
    for s in all_seps:  # away from ties
        h.assume(h.abs(r - s) > 2e-4)
    default = h.pick("given_as", ("argument", "survey value", "both"))
    kw = {} if default == "argument" else {"radius": r if default == "survey value" else 1e-4}
    ot = table(h, [float(i) for i in range(7)], **kw)
    arg = None if default == "survey value" else r
    inds = ot.range_search(q[0], q[1], radius=arg)
    want = [i for i, s in enumerate(seps) if h.true(r > s)]
    h.same(ints(inds), want, "the rows within the radius of the query, around the wrap and the poles")
    h.same(bool(ot.is_observed(q[0], q[1], radius=arg)), len(want) > 0, "is_observed agrees with the search")
    # the same query as one of several points
    two = ot.range_search(np.array([q[0], 45.0]), np.array([q[1], -80.0]), radius=arg)
    h.same(len(two), 2, "one list per query point")
    h.same(ints(two[0]), want, "a point of a batch finds what it finds alone")
    other = [i for i, p in enumerate(POINTINGS) if h.true(r > sep((45.0, -80.0), p))]
    h.same(ints(two[1]), other, "each point of a batch is searched")
    # a single point given as a list is a batch of one
    for ra, dec in (([q[0]], [q[1]]), (q[0], [q[1]]), ([q[0]], q[1])):
        one = ot.range_search(ra, dec, radius=arg)
        h.same((len(one), ints(one[0]) if len(one) and np.ndim(one[0]) == 1 else None), (1, want), "a batch of one point")
        h.same([bool(b) for b in ot.is_observed(ra, dec, radius=arg)], [len(want) > 0], "is_observed for a batch of one point")
    h.same([bool(b) for b in ot.is_observed(np.array([q[0], 45.0]), np.array([q[1], -80.0]), radius=arg)], [len(want) > 0, len(other) > 0], "is_observed for a batch")
    h.cover("end")


def centre(h):
    """A pointing at any position contains its own centre, and every radius finds it."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    ra, dec = h.real("ra", 0.0, 360.0), h.real("dec", -90.0, 90.0)
    r = h.real("r", 0.001, 170.0)
    ot = ObsTable({"ra": [ra], "dec": [dec], "time": [0.0]}, radius=r)
    h.same(ints(ot.range_search(ra, dec)), [0], "a pointing contains its centre")
    h.cover("end")


def window(h):
    """Every time window, given for all points or for each."""
    times = h.reals("t", 5, -100.0, 100.0)
    ot = table(h, times, radius=2.0)
    spatial = {"wrap": [0, 1], "field": [], "pole": [2, 3]}
    batch = h.pick("batch", (False, True))
    qs = ["wrap", "field", "pole"] if batch else [h.pick("query", ("wrap", "field", "pole"))]

    def bound(name):
        how = h.pick(name, ("none", "scalar", "array"))
        if how == "none":
            return None, [None] * len(qs)
        if how == "scalar" or not batch:
            v = h.real(name + "_v", -100.0, 100.0)
            return v if how == "scalar" else h.arr([v]), [v] * len(qs)
        v = h.reals(name + "_v", len(qs), -100.0, 100.0)
        return h.arr(v), v

    lo, los = bound("t_min")
    hi, his = bound("t_max")
    for k, q in enumerate(qs):
        for i in spatial[q]:
            for b in (los[k], his[k]):
                if b is not None:
                    h.assume(h.abs(times[i] - b) > 1e-6)
    if batch:
        got = ot.range_search(np.array([QUERIES[q][0] for q in qs]), np.array([QUERIES[q][1] for q in qs]), t_min=lo, t_max=hi)
        seen = ot.is_observed(np.array([QUERIES[q][0] for q in qs]), np.array([QUERIES[q][1] for q in qs]), t_min=lo, t_max=hi)
    else:
        got = [ot.range_search(*QUERIES[qs[0]], t_min=lo, t_max=hi)]
        seen = [ot.is_observed(*QUERIES[qs[0]], t_min=lo, t_max=hi)]
    for k, q in enumerate(qs):
        want = [i for i in spatial[q] if (los[k] is None or h.true(times[i] > los[k])) and (his[k] is None or h.true(times[i] < his[k]))]
        h.same(ints(got[k]), want, f"the rows in range within the window ({q})")
        h.same(bool(seen[k]), len(want) > 0, "is_observed agrees with the search")
    h.cover("end")


def closed(h):
    """The window is closed at both ends."""
    t = h.real("t", -100.0, 100.0)
    d = h.real("d", 0.0, 10.0)
    ot = table(h, [t], radius=2.0)
    q = QUERIES["wrap"]
    h.same(ints(ot.range_search(*q, t_min=t)), [0], "t_min itself is included")
    h.same(ints(ot.range_search(*q, t_max=t)), [0], "t_max itself is included")
    h.same(ints(ot.range_search(*q, t_min=t - d, t_max=t + d)), [0], "times inside the window")
    h.same(ints(ot.range_search(*q, t_min=t + 1.0 + d)), [], "an earlier observation is not found")
    h.same(ints(ot.range_search(*q, t_max=t - 1.0 - d)), [], "a later observation is not found")
    h.cover("end")


def observations(h):
    """get_observations returns, for the found rows only, the values of those rows."""
    times = h.reals("t", 5, -100.0, 100.0)
    flux = h.reals("f", 5, -5.0, 5.0)
    ot = table(h, times, radius=2.0)
    ot.add_column("extra", h.arr(flux))
    order = list(range(5))
    rows = h.pick("filter", (None, [1, 2, 3, 4], [0, 1], [3, 1]))
    if rows is not None:
        ot.filter_rows(rows)
        order = sorted(rows)
    q = h.pick("query", ("wrap", "pole", "field"))
    spatial = {"wrap": [0, 1], "field": [], "pole": [2, 3]}[q]
    lo = h.real("t_min", -100.0, 100.0)
    for i in spatial:
        h.assume(h.abs(times[i] - lo) > 1e-6)
    res = ot.get_observations(*QUERIES[q], t_min=lo, cols=h.pick("cols", (["time", "extra"], None)))
    want = [i for i in order if i in spatial and h.true(times[i] > lo)]
    one = ot.get_observations(*QUERIES[q], t_min=lo, cols="extra")
    h.same(sorted(one), ["extra"], "only the requested column")
    for k, src in (("time", times), ("extra", flux)):
        vals = h.flat(res[k])
        h.same(len(vals), len(want), "one value per observation found")
        inds = [order[int(i)] for i in ot.range_search(*QUERIES[q], t_min=lo)]
        for v, i in zip(vals, inds):
            h.close1(v, src[i], f"{k} of the observation found")
    h.check(h.raises(lambda: ot.get_observations(*QUERIES[q], cols=["nope"]), KeyError), "unknown columns are refused")
    h.cover("end")


class Footprint:
    """A detector footprint whose answer is a fixed function of all it is given."""

    def __init__(self, h):
        self.h = h

    @staticmethod
    def seen(h, ra, dec, cra, cdec, rot):
        return 0.3 * ra - 0.7 * dec + 0.11 * cra + 0.9 * cdec + (0.0 if rot is None else rot) > 0.0

    def contains(self, ra, dec, center_ra, center_dec, *, rotation=None):
        n = len(ra)
        rot = [None] * n if rotation is None else self.h.flat(rotation)
        assert len(dec) == len(center_ra) == len(center_dec) == len(rot) == n
        rows = zip(*[self.h.flat(x) for x in (ra, dec, center_ra, center_dec)], rot)
        return np.array([bool(self.h.true(self.seen(self.h, *r))) for r in rows], dtype=bool)


def footprint(h):
    """With a footprint, each pointing is judged at its own centre and rotation."""
    times = [float(i) for i in range(5)]
    ot = table(h, times, radius=2.0, detector_footprint=Footprint(h))
    rot = None
    if h.pick("rotation", (False, True)):
        rot = h.reals("rot", 5, -200.0, 200.0)
        ot.add_column("rotation", h.arr(rot))
    spatial = {"wrap": [0, 1], "field": [], "pole": [2, 3]}
    order = list(range(5))
    if h.pick("filtered", (False, True)):
        ot.filter_rows([4, 3, 1, 2])
        order = [1, 2, 3, 4]
    batch = h.pick("batch", (False, True))
    qs = ["pole", "field", "wrap"] if batch else [h.pick("query", ("wrap", "field", "pole"))]
    lo = h.pick("t_min", (None, 0.5))

    def inside(q, i):
        v = Footprint.seen(h, *QUERIES[q], *POINTINGS[i], None if rot is None else rot[i])
        return bool(h.true(v))

    for q in qs:
        for i in spatial[q]:
            if rot is not None:
                h.assume(h.abs(0.3 * QUERIES[q][0] - 0.7 * QUERIES[q][1] + 0.11 * POINTINGS[i][0] + 0.9 * POINTINGS[i][1] + rot[i]) > 1e-6)
    if batch:
        got = ot.range_search(np.array([QUERIES[q][0] for q in qs]), np.array([QUERIES[q][1] for q in qs]), t_min=lo)
    else:
        got = [ot.range_search(*QUERIES[qs[0]], t_min=lo)]
    for k, q in enumerate(qs):
        base = [i for i in order if i in spatial[q] and (lo is None or times[i] > lo)]
        want = [order.index(i) for i in base if inside(q, i)]
        h.same(ints(got[k]), want, f"the rows in range whose footprint covers the query ({q})")
    ot.clear_detector_footprint()
    h.same(ints(ot.range_search(*QUERIES["wrap"])), [order.index(i) for i in spatial["wrap"] if i in order], "no footprint, no filter")
    h.cover("end")


def refused(h):
    ot = table(h, [1.0, 2.0])
    r = h.real("r", 0.1, 5.0)
    h.check(h.raises(lambda: ot.range_search(1.0, 2.0), ValueError), "no radius anywhere")
    for a, b in ((None, 1.0), (1.0, None), ([1.0, None], [1.0, 2.0])):
        h.check(h.raises(lambda a=a, b=b: ot.range_search(a, b, radius=r), ValueError), "missing coordinates are refused")
    two = np.array([1.0, 2.0])
    h.check(h.raises(lambda: ot.range_search(two, np.array([1.0]), radius=r), ValueError), "mismatched coordinates")
    h.check(h.raises(lambda: ot.range_search(two, two, radius=r, t_min=np.zeros(3)), ValueError), "mismatched t_min")
    h.check(h.raises(lambda: ot.range_search(two, two, radius=r, t_max=np.zeros(3)), ValueError), "mismatched t_max")
    h.cover("end")


class Angles:
    """Stand-in of astropy's Longitude and Latitude: the values as they are, in degrees."""

    def __init__(self, values, unit=None):
        self.values, self.unit = values, str(getattr(unit, "name", unit))


class Size:
    def __init__(self, value):
        self.value = value


class Units:
    """Stand-in of astropy.units: a quantity keeps its number."""

    class _Deg:
        name = "deg"
        __array_priority__ = 1e9
        __array_ufunc__ = None

        def __rmul__(self, v):
            return Size(v)

        def __mul__(self, v):
            return Size(v)

    deg = degree = _Deg()


_CONES = []


class Cones:
    """Stand-in of mocpy's MOC: records the discs it is made of."""

    @classmethod
    def from_cones(cls, lon, lat, radius, max_depth, **kw):
        r = cls()
        r.args = (lon, lat, radius, max_depth, kw)
        _CONES.append(r)
        return r


def moc_patches(symbolic):
    import lightcurvelynx.obstable.obs_table as m

    return patches(symbolic) + [(m, "MOC", Cones), (m, "Longitude", Angles), (m, "Latitude", Angles), (m, "u", Units)]


def coverage_map(h):
    """The coverage map is made of one disc per observation: its pointing and the given or default radius."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    n = h.pick("n", (1, 3))
    ra, dec = h.reals("ra", n, 0.0, 360.0), h.reals("dec", n, -90.0, 90.0)
    own = h.real("table radius", 0.01, 10.0)
    given = h.real("given radius", 0.01, 10.0)
    has, asked = h.pick("default", (True, False)), h.pick("given", (True, False))
    depth = h.pick("depth", (None, 4))
    kw = {"radius": own} if has else {}
    ot = ObsTable({"ra": h.arr(ra), "dec": h.arr(dec), "time": [float(i) for i in range(n)]}, **kw)
    keep = list(range(n))
    if n == 3 and h.pick("filtered", (False, True)):
        ot = ot.filter_rows(np.array([True, False, True]))
        keep = [0, 2]
    args = ({"radius": given} if asked else {}) | ({} if depth is None else {"max_depth": depth})
    if not has and not asked:
        h.check(h.raises(lambda: ot.build_moc(**args), ValueError), "a radius is needed")
        h.cover("end")
        return
    lon, lat, r, d, _ = ot.build_moc(**args).args
    h.same((lon.unit, lat.unit), ("deg", "deg"), "positions in degrees")
    lo, la = h.flat(lon.values), h.flat(lat.values)
    h.same((len(lo), len(la)), (len(keep),) * 2, "one disc per observation")
    for k, i in enumerate(keep):
        h.close1(lo[k], ra[i], "the pointing")
        h.close1(la[k], dec[i], "the pointing")
    h.close1(r.value, given if asked else own, "the given radius, or that of the survey")
    h.same(d, 10 if depth is None else depth, "the requested depth")
    h.cover("end")


for f in (coverage_map, radius_search, centre, window, closed, observations, footprint, refused):
    f.must_cover = ("end",)


def cases(tier):
    return [
        Case("radius", radius_search, bounds="7 pointings (RA wrap, poles), 5 queries, radius in (0.01, 178) deg", patches=patches),
        Case("coverage-map", coverage_map, bounds="1..3 pointings anywhere, any radius", patches=moc_patches),
        Case("centre", centre, bounds="one pointing at any position, radius in (0.001, 170) deg", patches=patches),
        Case("time-window", window, bounds="5 symbolic times, every window, 1 or 3 queries", patches=patches),
        Case("closed-window", closed, bounds="1 symbolic time", patches=patches),
        Case("get-observations", observations, bounds="5 rows, 4 row filters, 3 queries, symbolic t_min", patches=patches),
        Case("footprint", footprint, bounds="5 pointings with symbolic rotations, a stand-in detector footprint, row filter, 1 or 3 queries", patches=patches),
        Case("refused", refused, bounds="invalid queries", patches=patches),
    ]
