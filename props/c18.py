"""Simulated light curves: every row of the result belongs to its sample, survey, observation and draw."""

import numpy as np
import pandas as pd

from props import c07
from props.common import listed, toy_flux, toy_sed_class
from props.c15 import trap
from props.c17 import WAVES, group
from symx.harness import ScriptedRNG
from symx.run import Case

POS = [(10.0, 5.0), (200.0, -30.0)]


class Frame:
    """Stand-in for nested_pandas.NestedFrame: a table and one nested table by row label."""

    def __init__(self, data=None, index=None):
        self.data, self.index, self.nested = data, index, {}
        for k, v in data.items():
            if len(v) != len(index):
                raise ValueError(f"length of {k}")

    def add_nested(self, df, name):
        self.nested[name] = df
        return self


def patches(symbolic):
    if not symbolic:
        return []
    import lightcurvelynx.simulate as s

    return [*c07.patches(True), (s, "NestedFrame", Frame)]


def column(res, name):
    return list(res.data[name]) if isinstance(res, Frame) else res[name].tolist()


def curve(res, i, name="lightcurve"):
    """Columns of the light curve of row i."""
    if isinstance(res, Frame):
        df = res.nested[name]
        return {k: df[k].to_numpy()[np.asarray(df.index) == i].tolist() for k in df.columns}
    df = res.loc[i, name]
    if df is None or (not isinstance(df, pd.DataFrame)):
        return {}
    return {k: df[k].tolist() for k in df.columns}


class Survey:
    """A survey table whose errors are affine in flux and row (the noise models are the subject of C09)."""


def survey(h, tag, rows, bands, times=None, labels=None, **extra):
    """An observation table with pointings at the two positions and its own error model."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    n = len(rows)
    times = times or h.sorted_reals(f"t{tag}", n, 0.0, 100.0, gap=0.01)
    eb = h.reals(f"eb{tag}", n, 0.1, 2.0)
    df = pd.DataFrame({"ra": [POS[r][0] + 0.1 for r in rows], "dec": [POS[r][1] for r in rows], "time": h.arr(times), "filter": bands, "eb": h.arr(eb), **extra})
    if labels:
        df.index = labels

    class Table(ObsTable):
        def bandflux_error_point_source(self, bandflux, index):
            return np.asarray(self["eb"].to_numpy())[np.asarray(index, dtype=int)] * (1.0 + 0.1 * bandflux)

    return Table(df, colmap={}, radius=2.0), times, eb


def source(h, n, rng_param=False, effect=False):
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

    p = [[h.real(f"{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]
    where = [h.pick(f"pos{i}", (0, 1)) if i == 0 else 1 - h.choice("pos0", 2) if False else i % 2 for i in range(n)]
    t0 = h.reals("tz", n, 20.0, 80.0)
    kw = {k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")}
    if rng_param:
        kw["a"] = NumpyRandomFunc("uniform", low=0.0, high=5.0)
    m = toy_sed_class()(ra=listed(h, [POS[w][0] for w in where]), dec=listed(h, [POS[w][1] for w in where]), t0=listed(h, t0), node_label="src", **kw)
    return m, p, where, t0


def flux_of(h, p, t, g, f):
    phi = h.flat(g[f].processed_transmission_table[:, 1])
    w = WAVES[f]
    return trap([toy_flux(p, t, x) * q for x, q in zip(w, phi)], w)


def aligned(n, nsurv):
    def fn(h):
        from lightcurvelynx.simulate import simulate_lightcurves

        m, p, where, t0 = source(h, n)
        mask = h.pick("mask", (False, True)) if n == 1 else False
        if mask:
            m.mask_by_time = lambda times, state=None: np.asarray(times) > t0[0] - 10.0
        window = h.pick("window", (None, (5.0, 20.0), (None, 10.0), (7.0, None)) if n * nsurv == 1 else (None, (5.0, 20.0)))
        specs = [("A", [0, 1, 0], ["g", "r", "r"], [7, 3, 5]), ("B", [1, 0], ["r", "g"], None)][:nsurv]
        surveys = []
        for tag, rows, bands, labels in specs:
            ot, times, eb = survey(h, tag, rows, bands, labels=labels, exposure=[float(k) for k in range(len(rows))])
            surveys.append((ot, times, eb, rows, bands))
        for ot, times, eb, rows, bands in surveys:  # away from ties
            for t in times:
                for i in range(n):
                    for d in (-5.0, -7.0, -10.0, 10.0, 20.0):
                        h.assume(h.abs(t - t0[i] - d) > 1e-4)
        g = [group(h, "gr", symbolic=False) for _ in surveys]
        rng = ScriptedRNG(h, "rng")
        obst, pbs = ([s[0] for s in surveys], g) if nsurv > 1 else (surveys[0][0], g[0])
        res = simulate_lightcurves(m, n, obst, pbs, obstable_save_cols=["exposure"], param_cols=["src.b"], time_window_offset=window, apply_obs_mask=mask, rng=rng)
        draws = [v for k, v in rng.log]
        used = 0
        h.same([int(v) for v in column(res, "id")], list(range(n)), "one row per sample")
        for i in range(n):
            for col, v in (("ra", POS[where[i]][0]), ("dec", POS[where[i]][1]), ("t0", t0[i]), ("src_b", p[i][1])):
                h.close1(column(res, col)[i], v, f"column {col} of the sample")
            pars = column(res, "params")[i]
            for k, v in zip("abcd", p[i]):
                h.close1(pars[f"src.{k}"], v, "parameters of the sample")
            lc = curve(res, i)
            k = 0
            for s, (ot, times, eb, rows, bands) in enumerate(surveys):
                seen = []
                match = []
                for r in range(len(rows)):
                    ok = rows[r] == where[i]
                    if ok and window is not None:
                        lo, hi = window
                        ok = h.true(h.And(times[r] >= t0[i] - lo if lo is not None else True, times[r] <= t0[i] + hi if hi is not None else True))
                    if ok and mask:
                        ok = h.true(times[r] > t0[0] - 10.0)
                    if ok:
                        match.append(r)
                for _ in match:
                    # the row this entry claims to be (times are distinct within a survey)
                    h.check(k < len(lc.get("mjd", [])), "every matching observation is in the light curve")
                    cand = [r for r in match if h.true(h.abs(lc["mjd"][k] - times[r]) < 1e-3)]
                    h.check(len(cand) == 1 and cand[0] not in seen, "each observation once")
                    r = cand[0]
                    seen.append(r)
                    perfect = flux_of(h, p[i], times[r], g[s], bands[r])
                    h.close1(lc["mjd"][k], times[r], "time of the observation")
                    h.same(str(lc["filter"][k]), bands[r], "filter of the observation")
                    h.same(int(lc["survey_idx"][k]), s, "survey of the observation")
                    h.close1(lc["exposure"][k], float(r), "saved column of the observation")
                    h.close1(lc["flux_perfect"][k], perfect, "noise-free flux of this sample, time and filter", rtol=1e-5, atol=1e-3)
                    err = eb[r] * (1.0 + 0.1 * perfect)
                    h.close1(lc["fluxerr"][k], err, "error of this observation", rtol=1e-5, atol=1e-3)
                    if not h.sym:
                        err = lc["fluxerr"][k]
                    h.close1(lc["flux"][k], perfect + err * draws[used], "noise drawn from the given generator", rtol=1e-5, atol=1e-2)
                    used += 1
                    k += 1
            h.same(len(lc.get("mjd", [])), k, "nothing else in the light curve")
            h.same(int(column(res, "nobs")[i]), k, "number of observations")
        h.same(len(draws), used, "one draw per observation")
        h.cover("end")

    return fn


def repeatable(h):
    """Everything random in a simulation (parameters, effects, noise) comes from the given generator."""
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.simulate import simulate_lightcurves

    n = 2
    m, p, where, t0 = source(h, n, rng_param=True)
    m.add_effect(WhiteNoise(h.real("sigma", 0.1, 1.0), rest_frame=h.pick("rest", (False, True))))
    ot, times, eb = survey(h, "A", [0, 1], ["g", "r"], times=[10.0, 20.0])
    g = group(h, "gr", symbolic=False)
    rng = ScriptedRNG(h, "rng")
    a = simulate_lightcurves(m, n, ot, g, rng=rng)
    h.check(len(h.own) == 0 or all(not x.log for x in h.own), "no other generator is used")
    for k in "bcd":  # the listed parameters start again
        m.setters[k].dependency.reset()
    for k in ("ra", "dec", "t0"):
        m.setters[k].dependency.reset()
    b = simulate_lightcurves(m, n, ot, g, rng=rng.again())
    for i in range(n):
        x, y = curve(a, i), curve(b, i)
        h.same(sorted(x), sorted(y), "same columns")
        for k in ("mjd", "flux", "fluxerr", "flux_perfect"):
            h.close(h.arr(x[k]), h.arr(y[k]), "the same generator state gives the same light curve")
    h.cover("end")


def bare(h):
    """A model without a reference time is seen at all times; saved parameters may be vectors or words."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.simulate import simulate_lightcurves

    n = h.pick("n", (1, 2, 3))
    p = [[h.real(f"{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]
    far = h.pick("unseen", (None, 0))  # a sample without observations
    m = toy_sed_class()(ra=listed(h, [POS[0][0] + (40.0 if i == far else 0.0) for i in range(n)]), dec=POS[0][1], node_label="src", **{k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")})
    kind = h.pick("kind", ("vector", "word"))
    vals = [h.reals(f"v{i}_", 2) for i in range(n)] if kind == "vector" else ["g" * (i + 1) for i in range(n)]
    m.add_parameter("extra", GivenValueList([h.arr(v) for v in vals] if kind == "vector" else vals))
    ot, times, eb = survey(h, "A", [0, 0], ["g", "r"])
    g = group(h, "gr", symbolic=False)
    window = h.pick("window", ((5.0, 5.0), (None, 5.0), (0.0, None), None))
    res = simulate_lightcurves(m, n, ot, g, param_cols=["src.extra", "src.b"], time_window_offset=window, rng=ScriptedRNG(h, "rng"))
    got = column(res, "src_extra")
    for i in range(n):
        if kind == "vector":
            h.close(h.arr(list(got[i])), vals[i], "the saved vector of the sample")
        else:
            h.same(str(got[i]), vals[i], "the saved word of the sample")
        h.close1(column(res, "src_b")[i], p[i][1], "the saved parameter of the sample")
        seen = 0 if i == far else 2
        h.same(int(column(res, "nobs")[i]), seen, "no window without a reference time")
        h.same(len(curve(res, i).get("mjd", [])), seen, "no window without a reference time")
    h.cover("end")


bare.must_cover = ("end",)


def invalid(h):
    from lightcurvelynx.models.physical_model import BandfluxModel
    from lightcurvelynx.simulate import get_time_windows, simulate_lightcurves

    m = toy_sed_class()(h.real("a", -5, 5), ra=10.0, dec=5.0, t0=h.real("t0_", 0, 10), node_label="src")
    ot, times, eb = survey(h, "A", [0], ["g"])
    g = group(h, "gr", symbolic=False)
    h.check(h.raises(lambda: simulate_lightcurves(m, 0, ot, g), ValueError), "no samples")
    h.check(h.raises(lambda: simulate_lightcurves(m, 1, [ot, ot], [g]), ValueError), "surveys and passbands do not match")
    h.check(h.raises(lambda: simulate_lightcurves(m, 1, ot, g, param_cols=["src.nope"]), KeyError), "unknown parameter")

    class Band(BandfluxModel):
        def compute_bandflux(self, times, filters, state, rng_info=None):
            return np.zeros(len(times))

    h.check(h.raises(lambda: simulate_lightcurves(Band(ra=1.0, dec=2.0), 1, [ot, ot], [g, g]), ValueError), "band flux models are for one survey")
    a, b = h.real("before", 0.0, 10.0), h.real("after", 0.0, 10.0)
    t = h.reals("tt", 2, -10, 10)
    lo, hi = get_time_windows(h.arr(t), (a, b))
    for i in range(2):
        h.close1(h.flat(lo)[i], t[i] - a, "start of the window")
        h.close1(h.flat(hi)[i], t[i] + b, "end of the window")
    lo, hi = get_time_windows(t[0], (None, b))
    h.check(lo is None, "no start")
    h.close1(h.flat(hi)[0], t[0] + b, "end of the window")
    h.same(get_time_windows(None, (a, b)), (None, None), "no reference time")
    h.check(h.raises(lambda: get_time_windows(t[0], (1.0,)), ValueError), "a pair is needed")
    h.cover("end")


def noise_free(h):
    """Noise-free curves: phases per sample, observer times, one column per filter."""
    from lightcurvelynx.simulate import compute_noise_free_lightcurves, compute_single_noise_free_lightcurve

    n = h.pick("n", (1, 2))
    p = [[h.real(f"{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]
    t0, z = h.reals("tz", n, 20.0, 80.0), h.reals("z", n, -0.5, 2.0)
    red = h.pick("redshift", (True, False))
    with_t0 = True if red else h.pick("with_t0", (True, False))
    m = toy_sed_class()(ra=listed(h, [POS[i][0] for i in range(n)]), dec=listed(h, [POS[i][1] for i in range(n)]), node_label="src", **{k: listed(h, [q[j] for q in p]) for j, k in enumerate("abcd")},
                        **({"t0": listed(h, t0)} if with_t0 else {}), **({"redshift": listed(h, z)} if red else {}))  # fmt: skip
    st = m.sample_parameters(num_samples=n)
    g = group(h, "gr", symbolic=False)
    lo = h.pick("lo", (-4.0, [-4.0, -2.0][:n]))
    los = [lo] * n if np.ndim(lo) == 0 else lo
    step = [2.0, 3.0][:n]
    whole = h.pick("whole", (False, True))  # phases given as integers
    hi = h.pick("hi", (3.0, [-1.0, 6.0])) if n > 1 and not whole else 3.0
    his = [hi] * n if np.ndim(hi) == 0 else list(hi)
    if np.ndim(hi):
        los = [-4.0, 2.0]  # ranges that do not overlap
        lo = los
    kind = int if whole else float

    def form(x):
        return kind(x) if np.ndim(x) == 0 else np.array(x).astype(kind)

    res = compute_noise_free_lightcurves(m, st, g, rest_frame_phase_min=form(lo), rest_frame_phase_max=form(hi), rest_frame_phase_step=form(step))
    for i in range(n):
        lc = curve(res, i)
        phases = [los[i] + step[i] * k for k in range(20) if los[i] + step[i] * k < his[i]]
        h.same(len(lc["times"]), len(phases), "number of phases")
        h.close1(column(res, "ra")[i], POS[i][0], "position of the sample")
        s = 1 + z[i] if red else 1.0
        shift = t0[i] if with_t0 else 0.0
        one = compute_single_noise_free_lightcurve(m, st.extract_single_sample(i), g, rest_frame_phase_min=form(los[i]), rest_frame_phase_max=form(his[i]), rest_frame_phase_step=form(step[i]))
        for k, ph in enumerate(phases):
            h.close1(lc["rest_phase"][k], ph, "rest-frame phase")
            h.close1(lc["times"][k], ph * s + shift, "observer's time of the phase")
            for f in "gr":
                phi = h.flat(g[f].processed_transmission_table[:, 1])
                want = trap([s * toy_flux(p[i], ph + shift, x / s) * q for x, q in zip(WAVES[f], phi)], WAVES[f])
                h.close1(lc[f][k], want, "flux at the phase", rtol=1e-5, atol=1e-2)
                h.close1(h.flat(one[f])[k], want, "flux at the phase (single sample)", rtol=1e-5, atol=1e-2)
    if n > 1:
        h.check(h.raises(lambda: compute_single_noise_free_lightcurve(m, st, g), ValueError), "one sample only")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (repeatable, invalid, noise_free):
    _e(fn)


def cases(tier):
    P = dict(patches=patches, random=True)
    out = [
        Case("one-sample", _e(aligned(1, 1)), bounds="1 sample, 3 observations, time windows, masks", **P),
        Case("two-samples", _e(aligned(2, 1)), bounds="2 samples, 3 observations", **P),
        Case("two-surveys", _e(aligned(2, 2)), bounds="2 samples, surveys of 3 and 2 observations", time_limit=400, **P),
        Case("repeatable", repeatable, bounds="2 samples, random parameter, effect and noise", **P),
        Case("bare", bare, bounds="1-3 samples, 2 observations, saved vectors or words", **P),
        Case("invalid-requests", invalid, bounds="windows symbolic", **P),
        Case("noise-free", noise_free, bounds="1-2 samples, 2-4 phases, 2 filters", **P),
    ]
    if tier != "quick":
        out.append(Case("three-samples", _e(aligned(3, 2)), bounds="3 samples, surveys of 3 and 2 observations", tier="thorough", time_limit=700, max_paths=20000, **P))
    return out
