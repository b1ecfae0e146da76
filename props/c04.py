"""Samplers of given values: in order, without loss or repetition; random picks only among allowed values; rows stay together."""

import itertools

import numpy as np

from props.common import own_draws
from symx.harness import ScriptedRNG
from symx import arrays
from symx.run import Case


def given_list(h):
    """Histories of samplings of a value list."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    v = h.reals("v", 5)
    nd = GivenValueList(h.arr(v))
    pos = 0
    for k in range(3):
        act = h.pick(f"act{k}", ("1", "2", "3", "reset"))
        if act == "reset":
            nd.reset()
            pos = 0
            continue
        n = int(act)
        if pos + n > 5:
            h.check(h.raises(lambda: nd.sample_parameters(num_samples=n), IndexError), "running out of values is refused")
            continue
        st = nd.sample_parameters(num_samples=n)
        got = st[nd.node_string]["function_node_result"]
        if n == 1:
            h.scalar(got, "a single sample is a scalar")
        h.same(len(h.flat(got)), n, "one value per sample")
        for i, g in enumerate(h.flat(got)):
            h.close1(g, v[pos + i], "values come in order, each once")
        pos += n
    h.check(h.raises(lambda: GivenValueList([]), ValueError), "an empty list is refused")
    h.cover("end")


def given_random(h):
    """Random picks: values of the list, never one of weight zero, at the drawn index."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler

    kind = h.pick("kind", ("list", "int", "weights", "intweights"))
    n = h.pick("n", (1, 2, 3))
    v = h.sorted_reals("v", 4, gap=1e-3)
    if kind == "int":
        nd, vals = GivenValueSampler(4), [0, 1, 2, 3]
    else:
        w = None
        if kind == "weights":
            w = np.array([1.0, 0.0, 2.0, 5.0])
        elif kind == "intweights":
            w = [2, 0, 1, 1]
        nd, vals = GivenValueSampler(h.arr(v), weights=w), v
        if kind == "weights":
            h.same(w.tolist(), [1.0, 0.0, 2.0, 5.0], "the caller's weights are untouched")
        h.check(h.raises(lambda: GivenValueSampler(h.arr(v), weights=[0.5, 0.5]), ValueError), "weights must match")
        h.check(h.raises(lambda: GivenValueSampler([]), ValueError), "an empty list is refused")
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    got = h.flat(st[nd.node_string]["function_node_result"])
    h.same([e[0] for e in rng.log], ["c"], "one choice call")
    _, idx, p, repl = rng.log[0]
    h.check(repl, "with replacement")
    if kind in ("weights", "intweights"):
        want = [1 / 8, 0, 2 / 8, 5 / 8] if kind == "weights" else [0.5, 0, 0.25, 0.25]
        for a, b in zip(p, want):
            h.close1(a, b, "probabilities are the normalised weights")
    else:
        h.same(p, None, "uniform probabilities")
    for i in range(n):
        h.close1(got[i], vals[idx[i]], "the value at the drawn index")
        if kind in ("weights", "intweights"):
            h.check(idx[i] != 1, "values of weight zero are never drawn")
    h.cover("end")


def selector(h):
    """A selector returns the value at the sampled index, and refuses an index outside."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSelector

    n = h.pick("n", (1, 2))
    v = h.reals("v", 3)
    idx = [h.int(f"i{k}", -2, 4) for k in range(n)]
    idx = [int(i) for i in idx]
    later = h.pick("later", ((0, 1), (2, 0)))[:n]
    nd = GivenValueSelector(h.arr(v), GivenValueList(np.array(idx + list(later))))
    if any(i < 0 or i >= 3 for i in idx):
        h.check(h.raises(lambda: nd.sample_parameters(num_samples=n), IndexError), "an index outside the list is refused")
        return h.cover("refused")
    st = nd.sample_parameters(num_samples=n)
    got = h.flat(st[nd.node_string]["function_node_result"])
    for i in range(n):
        h.close1(got[i], v[idx[i]], "the value at the index of the same sample")
    got = h.flat(nd.sample_parameters(num_samples=n)[nd.node_string]["function_node_result"])
    for i in range(n):
        h.close1(got[i], v[later[i]], "the value at the index of the next sampling")
    h.cover("end")


def table(h):
    """Rows of a table stay together, in order or at drawn rows, over a history of samplings."""
    from astropy.table import Table

    import pandas as pd
    from lightcurvelynx.math_nodes.given_sampler import TableSampler

    form = h.pick("form", ("dict", "table", "frame"))
    ncol = h.pick("ncol", (1, 2, 3))
    in_order = h.pick("in_order", (True, False))
    rows = 3
    cols = {f"c{j}": [100.0 * j + r for r in range(rows)] for j in range(ncol)}
    data = {"dict": lambda: dict(cols), "table": lambda: Table(cols), "frame": lambda: pd.DataFrame(cols, index=[7, 5, 3])}[form]()
    nd = TableSampler(data, in_order=in_order)
    pos = 0
    for k in range(2):
        n = h.pick(f"n{k}", (1, 2))
        rng = ScriptedRNG(h, f"g{k}")
        if in_order and pos + n > rows:
            h.check(h.raises(lambda: nd.sample_parameters(num_samples=n, rng_info=rng), IndexError), "running out of rows is refused")
            continue
        st = nd.sample_parameters(num_samples=n, rng_info=rng)
        if in_order:
            idx = list(range(pos, pos + n))
            pos += n
            h.same(rng.log, [], "no randomness in order")
        else:
            h.same([e[0] for e in rng.log], ["i"] * n, "one row draw per sample")
            idx = [int(e[1]) for e in rng.log]
        for name, values in cols.items():
            got = st[nd.node_string][name]
            if n == 1:
                h.scalar(got, "a single sample is a scalar")
            got = h.flat(got)
            h.same(len(got), n, "one value per sample")
            for i in range(n):
                h.close1(got[i], values[idx[i]], "every column takes the same row")
    if in_order:
        nd.reset()
        st = nd.sample_parameters(num_samples=1)
        h.close1(st[nd.node_string]["c0"], cols["c0"][0], "reset starts over")
    h.check(h.raises(lambda: TableSampler({"a": []}), ValueError), "an empty table is refused")
    h.cover("end")


def binary(h):
    from lightcurvelynx.math_nodes.given_sampler import BinarySampler

    p = h.real("p", 0.0, 1.0)
    n = h.pick("n", (1, 3))
    nd = BinarySampler(p)
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    got = h.flat(st[nd.node_string]["function_node_result"])
    h.same(len(rng.log), n, "one draw per sample")
    for i in range(n):
        h.check(h.And(h.Implies(got[i], rng.log[i][1] < p), h.Implies(rng.log[i][1] < p, got[i])), "true with the given probability")
    bad = h.pick("bad", (-0.1, 1.1))
    h.check(h.raises(lambda: BinarySampler(bad), ValueError), "probabilities outside [0, 1] are refused")
    h.cover("end")


def distribution(h):
    """Inverse-transform sampling: monotone in the draw, inside the support, at the quantile of the cumulative sum."""
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler

    y = h.pick("pdf", ((0.0, 1.0, 3.0), (1.0, 1.0, 2.0), (0.0, 2.0, 1.0, 1.0)))
    x = [float(i) * 2.0 - 1.0 for i in range(len(y))]
    nd = DistributionSampler(np.array(x), np.array(y))
    n = h.pick("n", (1, 2))
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    got = h.flat(st[nd.node_string]["function_node_result"])
    u = [e[1] for e in rng.log]
    h.same(len(u), n, "one draw per sample")
    cdf = np.cumsum(y) / np.sum(y)
    for i in range(n):
        h.check(h.And(got[i] >= x[0] - 1e-9, got[i] <= x[-1] + 1e-9), "samples stay inside the given range")
        for j in range(len(x)):
            h.check(h.Implies(u[i] >= float(cdf[j]) + 1e-9, got[i] >= x[j] - 1e-6), "the sample is not below a point whose cumulative probability is below the draw")
            h.check(h.Implies(u[i] <= float(cdf[j]) - 1e-9, got[i] <= x[j] + 1e-6), "the sample is not above a point whose cumulative probability exceeds the draw")
    if n == 2:
        h.check(h.Implies(u[0] < u[1], got[0] <= got[1] + 1e-9), "monotone in the draw")
    h.cover("end")


class Inverse:
    """Stand-in of scipy's sampler of a density: a draw stands for the sample, which is the density (or its logarithm) there."""

    def __init__(self, dist, **k):
        if not hasattr(dist, "pdf") and not hasattr(dist, "logpdf"):
            raise ValueError("Either of the methods `pdf` or `logpdf` must be specified")
        self.f = dist.logpdf if hasattr(dist, "logpdf") else dist.pdf

    def rvs(self, size=None, random_state=None):
        if random_state is None:
            raise AssertionError("no generator was given")
        if size is None:
            return self.f(random_state.uniform())
        return arrays.wrap([self.f(random_state.uniform()) for _ in range(int(size))])


def densities(h):
    """Samples of a density given as a function, as an object or as a class with parameters of each sample."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

    n = h.pick("n", (1, 2, 3))
    a, b = h.reals("a", 3, 0.1, 5.0), h.reals("b", 3, -5.0, 5.0)
    log = h.pick("log", (False, True))
    form = h.pick("form", ("function", "object", "class", "mixed"))
    meth = "logpdf" if log else "pdf"
    if form in ("function", "object"):
        f = lambda x: a[0] * x + b[0]
        d = f if form == "function" else type("Dist", (), {meth: staticmethod(f)})()
        nd = (SampleLogPDF if log else SamplePDF)(d, seed=1, node_label="nd")
        want = [(a[0], b[0])] * n
    else:

        def init(self, slope, shift):
            self.slope, self.shift = slope, shift

        cls = type("Dist", (), {"__init__": init, meth: lambda self, x: self.slope * x + self.shift})
        one = form == "mixed"
        nd = NumericalInversePolynomialFunc(cls, seed=1, node_label="nd", slope=a[0] if one else GivenValueList(a), shift=GivenValueList(b))
        want = [(a[0] if one else a[i], b[i]) for i in range(n)]
    rng = ScriptedRNG(h, "g")
    st = nd.sample_parameters(num_samples=n, rng_info=rng)
    got = st["nd"]["function_node_result"]
    if n == 1:
        h.scalar(got, "a scalar for a single sample")
    got = h.flat(got)
    u = [e[1] for e in rng.log]
    h.same(len(got), n, "one sample each")
    ways = []  # a draw of its own for each sample
    for js in itertools.combinations(range(len(u)), n):
        err = [got[i] - (want[i][0] * u[j] + want[i][1]) for i, j in enumerate(js)]
        ways.append(h.And(*[h.And(e < 1e-7, e > -1e-7) for e in err]))
    h.check(h.Or(*ways) if ways else False, "drawn from the density of this sample")
    h.check(h.raises(lambda: SamplePDF(3.0), ValueError) and h.raises(lambda: SampleLogPDF("x"), ValueError), "densities are functions")
    h.check(h.raises(lambda: NumericalInversePolynomialFunc(object()), ValueError), "densities are functions")
    h.cover("end")


def patches(symbolic):
    from props.common import Interp1d

    import lightcurvelynx.math_nodes.distribution_sampler as ds

    return [(ds, "interp1d", Interp1d)] if symbolic else []


def density_patches(symbolic):
    import lightcurvelynx.math_nodes.scipy_random as sr

    return [(sr, "NumericalInversePolynomial", Inverse)]


for f in (densities, given_list, given_random, selector, table, binary, distribution):
    f.must_cover = ("end",)


def cases(tier):
    return [
        Case("given-list", given_list, bounds="5 values, histories of 3 samplings of 1..3 or resets"),
        Case("given-random", given_random, random=True, bounds="4 values, 1..3 samples"),
        Case("selector", selector, bounds="3 values, 1..2 samples, indices -2..4"),
        Case("table", table, random=True, bounds="3 rows, 1..3 columns, two samplings of 1..2", max_paths=6000),
        Case("binary", binary, random=True, bounds="1 or 3 samples"),
        Case("densities", densities, random=True, patches=density_patches, bounds="densities with two symbolic parameters, 1..3 samples"),
        Case("distribution", distribution, random=True, patches=patches, bounds="3 tabulated densities of 3..4 points, 1 or 2 samples"),
    ]
