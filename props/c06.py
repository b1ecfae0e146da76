"""Sky position samplers: uniform on the sphere, inside the survey's coverage, in the requested units."""

import tempfile
from types import SimpleNamespace

import numpy as np

from symx import core as c
from symx.harness import ScriptedRNG
from symx.run import Case


def uniform(h):
    from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC

    deg = h.pick("degrees", (True, False))
    n = h.pick("n", (1, 2, 3))
    nd = UniformRADEC(use_degrees=deg)
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    ra, dec = st[nd.node_string]["ra"], st[nd.node_string]["dec"]
    if n == 1:
        h.scalar(ra, "ra is a scalar")
        h.scalar(dec, "dec is a scalar")
    ra, dec = h.flat(ra), h.flat(dec)
    u = [e[1] for e in rng.log]
    h.same((len(ra), len(dec), len(u)), (n, n, 2 * n), "one position per sample from two draws each")
    full, quarter = (360.0, 90.0) if deg else (2 * np.pi, np.pi / 2)
    ua, ud = u[:n], u[n:]
    for i in range(n):
        h.check(h.And(ra[i] >= -1e-9, ra[i] <= full + 1e-9), "ra lies in a full turn")
        h.check(h.And(dec[i] >= -quarter - 1e-9, dec[i] <= quarter + 1e-9), "dec lies between the poles")
        # uniform on the sphere: ra and sin(dec) are affine in independent uniform draws
        h.close1(ra[i], full * ua[i], "ra is uniform")
        h.close1(h.sin(h.rad(dec[i]) if deg else dec[i]), 2.0 * ud[i] - 1.0, "sin(dec) is uniform", atol=1e-6)
    h.cover("end")


def obstable(h, n_rows=2, radius=5.0, whole=False):
    from lightcurvelynx.obstable.obs_table import ObsTable

    if whole:
        return ObsTable({"ra": [10, 120], "dec": [-20, 30], "time": [1, 2]}, radius=radius), [10.0, 120.0], [-20.0, 30.0], [1.0, 2.0]
    ra = [10.0, 120.0, 250.0][:n_rows]
    dec = [-20.0, 30.0, 5.0][:n_rows]
    t = [1.0, 2.0, 3.0][:n_rows]
    return ObsTable({"ra": ra, "dec": dec, "time": t}, radius=radius), ra, dec, t


def around(h):
    """Positions around the pointings: a row's centre and time, offset by at most the radius."""
    from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler

    ot, ra, dec, t = obstable(h, radius=h.pick("survey_radius", (5.0, 0.5)), whole=h.pick("numbers", ("real", "whole")) == "whole")
    kind = h.pick("radius", ("zero", "table", "given"))
    r = {"zero": 0.0, "table": ot.radius, "given": h.real("r", 0.01, 3.0) if h.sym else h.real("r", 0.01, 3.0)}[kind]
    n = h.pick("n", (1, 2))
    in_order = h.pick("in_order", (True, False))
    nd = ObsTableRADECSampler(ot, radius=None if kind == "table" else r, in_order=in_order)
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    vals = [h.flat(st[nd.node_string][k]) for k in ("ra", "dec", "time")]
    if n == 1:
        for k in ("ra", "dec", "time"):
            h.scalar(st[nd.node_string][k], "a scalar for a single sample")
    h.same([len(v) for v in vals], [n] * 3, "one position per sample")
    idx = list(range(n)) if in_order else [int(e[1]) for e in rng.log if e[0] == "i"]
    for i in range(n):
        h.close1(vals[2][i], t[idx[i]], "the time of the sampled row")
        dx, dy = vals[0][i] - ra[idx[i]], vals[1][i] - dec[idx[i]]
        if kind == "zero":
            h.close1(dx, 0.0, "the centre of the row")
            h.close1(dy, 0.0, "the centre of the row")
        else:
            u = [e[1] for e in rng.log if e[0] == "u"]
            h.close1(dx * dx + dy * dy, r * r * u[i], "offset within the radius, uniform in area")
    if kind == "zero":
        h.same([e for e in rng.log if e[0] == "u"], [], "no offset draws")
    elif not in_order:
        # an even direction: half a turn further lies the opposite position, and a quarter turn further a perpendicular one
        first = [i for i, e in enumerate(rng.log) if e[0] == "u"][-n:]
        v = h.pick("direction", (0.0, 0.2))
        off = []
        for turn in (0.0, 0.5, 0.25):
            log = [("u", v + turn) if i in first else e for i, e in enumerate(rng.log)]
            st2 = nd.sample_parameters(num_samples=n, rng_info=ScriptedRNG(h, "turned", log))
            v2 = [h.flat(st2[nd.node_string][k]) for k in ("ra", "dec")]
            off.append([(v2[0][i] - ra[idx[i]], v2[1][i] - dec[idx[i]]) for i in range(n)])
        for i in range(n):
            (x0, y0), (x1, y1), (x2, y2) = (o[i] for o in off)
            h.close1(x1, -x0, "an even direction", rtol=1e-6, atol=1e-7)
            h.close1(y1, -y0, "an even direction", rtol=1e-6, atol=1e-7)
            h.close1(x2 * x2 + y2 * y2, x0 * x0 + y0 * y0, "an even direction", rtol=1e-6, atol=1e-7)
            h.close1(x0 * x2 + y0 * y2, 0.0, "an even direction", atol=1e-6)
    h.cover("end")


def rejection(h):
    """Rejection sampling: every returned position was found inside the coverage, unless the attempts ran out."""
    from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableUniformRADECSampler

    ot, *_ = obstable(h, 3)
    rad = h.pick("radius", (None, 2.0))
    n = h.pick("n", (1, 2))
    iters = h.pick("iters", (1, 2, 3))
    nd = ObsTableUniformRADECSampler(ot, radius=rad, max_iterations=iters)
    verdict, calls = {}, []

    def is_observed(ra, dec, radius=None, **k):
        calls.append(radius)
        out = []
        for a, b in zip(h.flat(ra), h.flat(dec)):
            key = (str(a), str(b))
            if key not in verdict:
                verdict[key] = h.choice(f"in{len(verdict)}", 2) == 1
            out.append(verdict[key])
        return out

    ot.is_observed = is_observed
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    ra, dec = h.flat(st[nd.node_string]["ra"]), h.flat(st[nd.node_string]["dec"])
    h.check(all(r == (rad or 5.0) for r in calls), "the coverage is searched with the given radius")
    h.check(len(calls) <= iters, "at most the given number of attempts")
    ok = [verdict.get((str(a), str(b)), None) for a, b in zip(ra, dec)]
    h.check(None not in ok, "every returned position was checked")
    h.check(all(ok) or len(calls) == iters, "positions outside the coverage only after the last attempt")
    for a, b in zip(ra, dec):
        h.check(h.And(a >= 0, a <= 360.0 + 1e-9, b >= -90.0 - 1e-9, b <= 90.0 + 1e-9), "positions in degrees")
    u = [e[1] for e in rng.log]
    if len(calls) == 1:
        for i in range(n):
            h.close1(ra[i], 360.0 * u[i], "ra is uniform")
            h.close1(h.sin(h.rad(dec[i])), 2.0 * u[n + i] - 1.0, "sin(dec) is uniform", atol=1e-6)
    h.cover("end")


class Coords:
    def __init__(self, ids):
        self.ra = self
        self.dec = self
        self.deg = ids


def moc(h):
    """Sky-map sampling: the finest pixel drawn descends from a pixel of the map, and every child can be drawn."""
    import lightcurvelynx.math_nodes.ra_dec_sampler as rd
    from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler

    depth = h.pick("depth", (27, 28, 29))
    pix = [5, 12345678901234567, 3 * 4**27]
    n = h.pick("n", (1, 2)) if depth != 27 else 1

    class Moc:
        def to_order(self, d):
            h.same(d, depth, "the map is read at the requested depth")
            return np.array(pix, dtype=np.uint64)

    if h.pick("from", ("map", "file")) == "file":
        asked = []
        keep = rd.MOC
        rd.MOC = SimpleNamespace(load=lambda path, format=None, **k: asked.append((str(path), format)) or Moc())
        try:
            with tempfile.NamedTemporaryFile(suffix=".fits") as f:
                nd = ApproximateMOCSampler.from_file(f.name, depth=depth)
                h.same(asked, [(f.name, "fits")], "the map of the file")
                ApproximateMOCSampler.from_file(f.name, format="json", depth=depth)
                h.same(asked[1:], [(f.name, "json")], "read in the given format")
            h.check(h.raises(lambda: ApproximateMOCSampler.from_file(f.name, depth=depth), FileNotFoundError), "no such file")
        finally:
            rd.MOC = keep
    else:
        nd = ApproximateMOCSampler(Moc(), depth=depth)
    for bad in (1, 30):
        h.check(h.raises(lambda bad=bad: ApproximateMOCSampler(Moc(), depth=bad), ValueError), "a depth there is no map of")
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    ids = np.ravel(st[nd.node_string]["ra"]).tolist()
    h.same(len(ids), n, "one position per sample")
    (ch,) = [e for e in rng.log if e[0] == "c"]
    offs = [int(e[1]) for e in rng.log if e[0] == "i"]
    k = 4 ** (29 - depth)
    for i in range(n):
        got = int(ids[i])
        h.check(got // k == pix[ch[1][i]], "the drawn pixel descends from the chosen pixel of the map")
        h.check(got % k == offs[i], "every child pixel can be drawn")
    h.same([(int(a), int(b)) for a, b in rng.ranges], [(0, k - 1)] * n, "every child pixel can be drawn")
    h.same(np.ravel(st[nd.node_string]["dec"]).tolist(), ids, "ra and dec come from the same pixel")
    h.cover("end")


def invalid(h):
    from lightcurvelynx.math_nodes import ra_dec_sampler as rd

    ot, *_ = obstable(h)
    r = h.real("r", -5.0, 5.0)
    bad = h.raises(lambda: rd.ObsTableRADECSampler(ot, radius=r), ValueError)
    h.check(h.And(h.Implies(bad, r < 0), h.Implies(r < 0, bad)), "a negative radius is refused")
    bad = h.raises(lambda: rd.ObsTableUniformRADECSampler(ot, radius=r), ValueError)
    h.check(h.And(h.Implies(bad, r <= 0), h.Implies(r <= 0, bad)), "a non-positive search radius is refused")
    it = h.int("it", -2, 2)
    bad = h.raises(lambda: rd.ObsTableUniformRADECSampler(ot, max_iterations=it), ValueError)
    h.check(h.And(h.Implies(bad, it <= 0), h.Implies(it <= 0, bad)), "a non-positive number of attempts is refused")
    h.cover("end")


for f in (uniform, around, rejection, moc, invalid):
    f.must_cover = ("end",)


def pix2sky(symbolic):
    return lambda ids, depth: Coords(np.array([int(i) for i in np.ravel(ids)], dtype=object) if symbolic else np.asarray(ids))


def patches(symbolic):
    import lightcurvelynx.math_nodes.ra_dec_sampler as rd

    return [(rd, "healpix_to_skycoord", pix2sky(symbolic))]


def cases(tier):
    return [
        Case("uniform", uniform, random=True, bounds="1..3 samples, degrees and radians"),
        Case("around", around, random=True, bounds="2 pointings, radius up to 3 degrees, 1..2 samples"),
        Case("rejection", rejection, random=True, bounds="1..2 samples, up to 3 attempts, arbitrary answers of the coverage search"),
        Case("moc", moc, random=True, patches=patches, bounds="3 pixels, depths 27..29, 1..2 samples"),
        Case("invalid", invalid, random=True, bounds="radius in [-5, 5]"),
    ]
