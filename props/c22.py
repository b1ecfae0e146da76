"""Bicubic interpolation on a grid: exact on the grid, cubic convolution inside, linear in the outer cells, zero outside."""

import numpy as np

from symx.run import Case

REG = {5: [0.0, 2.0, 4.0, 6.0, 8.0], 4: [-1.0, 0.0, 1.0, 2.0], 3: [10.0, 10.5, 11.0]}
IRR = {5: [0.0, 1.0, 4.0, 6.0, 8.5], 4: [-1.0, 0.0, 2.0, 2.5], 3: [10.0, 10.5, 12.0]}


def catmull(p, s):
    """The cubic through p[1] (s=0) and p[2] (s=1) with central-difference slopes."""
    m1, m2 = (p[2] - p[0]) / 2, (p[3] - p[1]) / 2
    return (2 * s**3 - 3 * s**2 + 1) * p[1] + (s**3 - 2 * s**2 + s) * m1 + (-2 * s**3 + 3 * s**2) * p[2] + (s**3 - s**2) * m2


def reference(z, i, j, a, b):
    n, m = len(z), len(z[0])
    if i in (0, n - 2) or j in (0, m - 2):
        lo = z[i][j] + (z[i][j + 1] - z[i][j]) * b
        hi = z[i + 1][j] + (z[i + 1][j + 1] - z[i + 1][j]) * b
        return lo + (hi - lo) * a
    return catmull([catmull(z[i + k][j - 1 : j + 3], b) for k in range(-1, 3)], a)


class Clamped:
    """Rows of values as seen by compiled code, which never fails on an index: it wraps negative ones and clamps the rest."""

    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, i):
        n = len(self.rows)
        i = int(i)
        i = i + n if i < 0 else i
        v = self.rows[min(max(i, 0), n - 1)]
        return Clamped(v) if np.ndim(v) else v


def patches(symbolic):
    if not symbolic:
        return []
    from lightcurvelynx.utils import bicubic_interp
    from symx.patch import vmap_loop

    def vmap(f, in_axes=0, **k):
        return vmap_loop(lambda *args: f(*[Clamped(a) if x is None else a for a, x in zip(args, in_axes)]), in_axes=in_axes, **k)

    return [(bicubic_interp, "vmap", vmap)]


def cells(n, m, irregular, mode, at=(0.625,)):
    """mode: symbolic grid values at some places of each cell, or symbolic places with some symbolic grid values."""

    def fn(h):
        from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

        xs, ys = (IRR if irregular else REG)[n], (REG if irregular and n != m else IRR if irregular else REG)[m]
        i, j = h.pick("i", range(n - 1)), h.pick("j", range(m - 1))
        if mode == "values":
            z = [[h.real(f"z{i}_{j}", -5.0, 5.0) for j in range(m)] for i in range(n)]
            a, b = h.pick("ab", [(0.25, 0.5), (0.875, 0.125), (0.5, 0.75)])
        else:
            z = [[((3 * p + 5 * q + p * q) % 7) - 3.0 for q in range(m)] for p in range(n)]
            a, b = h.real("a", 0.01, 0.99), h.pick("b", at)
            if h.pick("swap", (False, True)):
                a, b = b, a
            if mode == "mixed":
                z[i][j] = h.real("z", -5.0, 5.0)
        f = BicubicInterpolator(np.array(xs), np.array(ys), h.arr(z))
        qx, qy = xs[i] + a * (xs[i + 1] - xs[i]), ys[j] + b * (ys[j + 1] - ys[j])
        v = f(h.arr([qx]), h.arr([qy]))
        h.same(h.shape(v), (1, 1), "one value per pair of coordinates")
        h.close1(h.flat(v)[0], reference(z, i, j, a, b), "the value in the cell", rtol=1e-4, atol=1e-3)
        h.cover("end")

    return fn


def product(h):
    """All pairs of coordinates, in the order given; nodes exact; nothing outside."""
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

    xs, ys = REG[5], IRR[4]
    z = [[h.real(f"z{i}_{j}", -5.0, 5.0) for j in range(4)] for i in range(5)]
    f = BicubicInterpolator(np.array(xs), np.array(ys), h.arr(z))
    at_x, at_y = [xs[3], xs[0], xs[4], xs[1]], [ys[2], ys[3], ys[0]]
    v = f(np.array(at_x), np.array(at_y))
    h.same(h.shape(v), (4, 3), "one value per pair of coordinates")
    got = h.flat(v)
    for p, x in enumerate(at_x):
        for q, y in enumerate(at_y):
            h.close1(got[p * 3 + q], z[xs.index(x)][ys.index(y)], "the grid values themselves", rtol=1e-4, atol=1e-4)
    d = h.real("d", 1e-3, 1e3)
    side = h.pick("side", range(4))
    qx = [xs[0] - d, xs[-1] + d][side % 2] if side < 2 else 5.0
    qy = [ys[0] - d, ys[-1] + d][side % 2] if side >= 2 else 1.0
    v = h.flat(f(h.arr([qx, 4.0]), h.arr([qy, 0.0])))
    h.same(len(v), 4, "one value per pair of coordinates")
    h.close1(v[0], 0.0, "zero outside of the grid")
    if side < 2:
        h.close1(v[1], 0.0, "zero outside of the grid")
    else:
        h.close1(v[2], 0.0, "zero outside of the grid")
    h.close1(v[3], z[2][1], "a point of the grid", rtol=1e-4, atol=1e-4)
    h.cover("end")


def quadratic(h):
    """On a regular grid, quadratics are reproduced inside and products of lines everywhere."""
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

    xs, ys = REG[5], REG[4]
    inner = h.pick("inner", (True, False))
    k = h.pick("k", [[1.5, -0.5, 0.25, 1.0, 0.0, 0.0]] + ([[0.5, 1.0, -1.0, 0.25, 0.75, -0.5]] if inner else []))

    def val(x, y):
        return k[0] + k[1] * x + k[2] * y + k[3] * x * y + k[4] * x * x + k[5] * y * y

    f = BicubicInterpolator(np.array(xs), np.array(ys), h.arr([[val(x, y) for y in ys] for x in xs]))
    if h.pick("swap", (False, True)):
        qx = h.real("qx", 2.01, 5.99) if inner else h.real("qx", 0.01, 7.99)
        qy = h.pick("qy", (0.1,)) if inner else h.pick("qy", (-0.9, 0.2))
    else:
        qx = h.pick("qx", (5.9,)) if inner else h.pick("qx", (0.4, 3.0))
        qy = h.real("qy", 0.01, 0.99) if inner else h.real("qy", -0.99, 1.99)
    for x in xs:
        h.assume(h.abs(qx - x) > 1e-3)
    for y in ys:
        h.assume(h.abs(qy - y) > 1e-3)
    h.close1(h.flat(f(h.arr([qx]), h.arr([qy])))[0], val(qx, qy), "polynomials are reproduced", rtol=1e-4, atol=1e-3)
    h.cover("end")


def refused(h):
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator

    t = h.reals("t", 3, 0.0, 10.0)
    for i in range(2):
        h.assume(h.abs(t[i + 1] - t[i]) > 1e-2)
    up = h.true(h.And(t[0] < t[1], t[1] < t[2]))
    axis = h.pick("axis", (0, 1))
    good = np.array([0.0, 1.0, 2.0])
    z = np.zeros((3, 3))
    h.same(h.raises(lambda: BicubicInterpolator(*([h.arr(t), good] if axis == 0 else [good, h.arr(t)]), z), ValueError), not up, "unsorted axes are refused, sorted ones are not")
    for bad in ((good[:2], good, z[:2]), (good, good, z[:2]), (good, good[:, None], z), (good, good, z[0]), (good, good, np.zeros((3, 3, 1)))):
        h.check(h.raises(lambda bad=bad: BicubicInterpolator(*bad), ValueError), "inconsistent grids are refused")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (product, quadratic, refused):
    _e(fn)


def cases(tier):
    p = dict(patches=patches)
    out = [
        Case("values-5x4", _e(cells(5, 4, False, "values")), bounds="5x4 regular grid, every cell, 3 places, symbolic grid values", **p),
        Case("values-4x5-irregular", _e(cells(4, 5, True, "values")), bounds="4x5 grid, irregular steps, every cell, 3 places", **p),
        Case("places-5x4", _e(cells(5, 4, False, "places")), bounds="5x4 regular grid of fixed values, one symbolic coordinate in every cell", **p),
        Case("places-4x5-irregular", _e(cells(4, 5, True, "places")), bounds="4x5 grid of fixed values, irregular steps, one symbolic coordinate in every cell", **p),
        Case("values-3x5", _e(cells(3, 5, False, "values")), bounds="3x5 grid, every cell", **p),
        Case("product", product, bounds="5x4 grid, 4x3 coordinates, symbolic distance outside", **p),
        Case("quadratic", quadratic, bounds="5x4 grid, fixed polynomials, one symbolic coordinate", **p),
        Case("refused", refused, bounds="3 symbolic axis points", **p),
    ]
    if tier != "quick":
        out.append(Case("places-5x5-irregular", _e(cells(5, 5, True, "places", (0.25, 0.9))), bounds="5x5 grid of fixed values, irregular steps", tier="thorough", time_limit=600, **p))
        out.append(Case("values-5x5-irregular", _e(cells(5, 5, True, "values")), bounds="5x5 grid, irregular steps, every cell", tier="thorough", **p))
        out.append(Case("mixed-5x4", _e(cells(5, 4, False, "mixed", (0.25, 0.625, 0.9))), bounds="5x4 grid, one symbolic coordinate and a symbolic value", tier="thorough", time_limit=600, **p))
    return out
