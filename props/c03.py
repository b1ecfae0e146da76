"""Seeded randomness: every draw comes from the given generator, and repeating the generator repeats the result."""

import numpy as np

from props.common import Interp1d, own_draws
from symx import core as c
from symx.harness import ScriptedRNG
from symx.run import Case


class FakeInvPoly:
    """scipy's NumericalInversePolynomial: rvs takes its draws from the generator it is given."""

    def __init__(self, dist, **k):
        self.dist = dist

    def rvs(self, size=None, random_state=None):
        if random_state is None:
            random_state = _OWN[0]()
        tag = float(getattr(self.dist, "hostmass", 1.0))
        return random_state.random(size) + tag


_OWN = [None]


class FakeFlow:
    """A pzflow-like object: its samples are a deterministic function of the seed."""

    def __init__(self, h, conditional=False):
        self.h = h
        self.data_columns = ["p", "q"]
        self.conditional_columns = ["w"] if conditional else None
        self.cache = {}
        self.calls = []

    def sample(self, nsamples, conditions=None, seed=None):
        import pandas as pd

        n = nsamples if conditions is None else len(conditions)
        self.calls.append((nsamples, conditions, seed))
        key = (seed, n) if seed is not None else object()
        if key not in self.cache:
            i = len(self.cache)
            self.cache[key] = [[self.h.real(f"flow{i}_{c_}{j}") for j in range(n)] for c_ in "pq"]
        p, q = self.cache[key]
        if conditions is not None:
            w = list(conditions["w"])
            p = [a + b for a, b in zip(p, w)]
        return pd.DataFrame({"p": p, "q": q}, dtype=object if self.h.sym else float)


def make_node(h, kind):
    """A node of the kind, its outputs, and whether one sampling has to draw."""
    from lightcurvelynx.math_nodes import given_sampler as gs
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

    if kind == "uniform":
        return NumpyRandomFunc("uniform", low=h.real("low", -5, 0), high=h.real("high", 0, 5)), 1
    if kind == "normal":
        return NumpyRandomFunc("normal", loc=h.real("loc"), scale=h.real("scale", 0, 3)), 1
    if kind == "exponential":
        return NumpyRandomFunc("exponential", scale=h.real("scale", 0, 3)), 1
    if kind == "vector":
        return NumpyRandomFunc("uniform", size=2, low=0.0, high=h.real("high", 0.5, 5)), 1
    if kind == "chained":
        return NumpyRandomFunc("normal", loc=NumpyRandomFunc("uniform", low=0.0, high=3.0), scale=h.real("scale", 0, 3)), 2
    if kind == "binary":
        return gs.BinarySampler(h.pick("prob", (0.25, 0.7))), 1
    if kind == "given":
        return gs.GivenValueSampler(h.arr(h.reals("v", 3))), 1
    if kind == "weighted":
        return gs.GivenValueSampler(h.arr(h.reals("v", 3)), weights=np.array([0.25, 0.0, 0.75])), 1
    if kind == "table":
        return gs.TableSampler({"a": [1.0, 2.0, 3.0], "b": [10.0, 20.0, 30.0]}), 1
    if kind == "radec":
        from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC

        return UniformRADEC(), 1
    if kind == "moc":
        from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler

        class Moc:
            def to_order(self, d):
                return np.array([5, 3 * 4**25], dtype=np.uint64)

        return ApproximateMOCSampler(Moc(), depth=29), 1
    if kind in ("obs-centres", "obs-radius", "obs-uniform"):
        from lightcurvelynx.math_nodes import ra_dec_sampler as rd
        from lightcurvelynx.obstable.obs_table import ObsTable

        ot = ObsTable({"ra": [10.0, 120.0], "dec": [-20.0, 30.0], "time": [1.0, 2.0]}, radius=5.0)
        if kind == "obs-uniform":
            # the search itself is concrete geometry: stand-in with an arbitrary answer
            answers = {}

            def is_observed(ra, dec, radius=None):
                k = tuple(str(v) for v in list(ra) + list(dec))
                if k not in answers:
                    answers[k] = [h.choice(f"obs{len(answers)}_{i}", 2) == 1 for i in range(len(ra))]
                return answers[k]

            if h.sym:
                ot.is_observed = is_observed
            return rd.ObsTableUniformRADECSampler(ot, max_iterations=2), 1
        return rd.ObsTableRADECSampler(ot, radius=0.0 if kind == "obs-centres" else 1.5), 1
    if kind == "distribution":
        from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler

        return DistributionSampler(np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0, 3.0])), 1
    if kind in ("pdf", "pdf-class"):
        from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SamplePDF

        if kind == "pdf":
            return SamplePDF(lambda x: np.exp(-(x**2))), 1

        class Dist:
            def __init__(self, hostmass):
                self.hostmass = hostmass

            def pdf(self, x):
                return np.exp(-(x**2))

        return NumericalInversePolynomialFunc(Dist, hostmass=2.0), 1
    if kind == "hostmass-x1":
        from lightcurvelynx.astro_utils.snia_utils import HostmassX1Func

        return HostmassX1Func(hostmass=NumpyRandomFunc("uniform", low=9.5, high=10.5)), 2
    if kind == "sn-coord":
        from lightcurvelynx.astro_utils.snia_utils import SNCoordGivenPhysicalSep

        return SNCoordGivenPhysicalSep(host_ra=h.pick("ra", (10.0, 200.0)), host_dec=-20.0, physical_sep_kpc=h.real("sep", 1, 20), redshift=0.1), 1
    if kind in ("pzflow", "pzflow-cond"):
        from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

        k = {"w": NumpyRandomFunc("uniform", low=0.0, high=1.0)} if kind == "pzflow-cond" else {}
        return PZFlowNode(FakeFlow(h, bool(k)), **k), 1
    raise KeyError(kind)


def flat_state(h, st):
    out = []
    for k in sorted(st.get_all_params_names()):
        v = st[k]
        out.append((k, h.shape(v), h.flat(v)))
    return out


def same_states(h, a, b, label):
    h.same([(k, s) for k, s, _ in a], [(k, s) for k, s, _ in b], label)
    for (k, _, x), (_, _, y) in zip(a, b):
        for u, v in zip(x, y):
            h.close1(u, v, f"{label}: {k.split('.')[-1]}")


def node(kind):
    def fn(h):
        if h.sym:
            _OWN[0] = lambda: ScriptedRNG(h, "anon")
        n = h.pick("n", (1, 2))
        nd, draws = make_node(h, kind)
        before = len(own_draws(h))
        rng = ScriptedRNG(h, "g")
        st = nd.sample_parameters(num_samples=n, rng_info=rng)
        h.same(own_draws(h)[before:], [], "no draw from any other generator")
        h.check(len(rng.log) >= draws, "the given generator is used")
        rng2 = rng.again()
        st2 = nd.sample_parameters(num_samples=n, rng_info=rng2)
        h.same(own_draws(h)[before:], [], "no draw from any other generator")
        same_states(h, flat_state(h, st), flat_state(h, st2), "the same generator state gives the same parameters")
        h.same(len(rng2.log), len(rng.log), "the same number of draws")
        for k, s, v in flat_state(h, st):
            if kind == "vector" and k.endswith("result"):
                want = ((2,), (1, 2)) if n == 1 else ((n, 2),)
            elif kind == "sn-coord":
                want = ((), (1,)) if n == 1 else ((n,),)
            else:
                want = ((),) if n == 1 else ((n,),)
            h.check(s in want, f"{k.split('.')[-1]}: one value per sample (shape {s})")
        # without a given generator only the node's own one is used
        st3 = nd.sample_parameters(num_samples=n)
        h.same(sorted(st3.get_all_params_names()), sorted(st.get_all_params_names()), "the same parameters are sampled")
        h.same(len(rng.log), len(rng2.log), "an earlier generator is not kept")
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


def params_per_sample(h):
    """Each sample's draw uses that sample's own parameters."""
    from lightcurvelynx.base_models import ParameterizedNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

    n = h.pick("n", (1, 2, 3))
    kind = h.pick("kind", ("normal", "uniform", "exponential"))
    a = h.reals("a", n, -10.0, 10.0)
    b = h.reals("b", n, 0.0, 5.0)
    va, vb = GivenValueList(h.arr(a)), GivenValueList(h.arr(b))
    rng = ScriptedRNG(h, "g")
    if kind == "normal":
        nd = NumpyRandomFunc("normal", loc=va, scale=vb)
    elif kind == "uniform":
        for x, y in zip(a, b):
            h.assume(x < y)
        nd = NumpyRandomFunc("uniform", low=va, high=vb)
    else:
        nd = NumpyRandomFunc("exponential", scale=vb)

    class Nd(ParameterizedNode):
        def __init__(self, p):
            super().__init__(node_label="R")
            self.add_parameter("p", p)
            self.add_parameter("q", self.p)

    st = Nd(nd).sample_parameters(num_samples=n, rng_info=rng)
    vals = h.flat(st["R.p"])
    h.same(len(vals), n, "one value per sample")
    h.same(len(rng.log), n, "one draw per sample")
    for i, (_, d) in enumerate(rng.log):
        want = {"normal": lambda: a[i] + b[i] * d, "uniform": lambda: a[i] + d * (b[i] - a[i]), "exponential": lambda: b[i] * d}[kind]()
        h.close1(vals[i], want, "sample i is drawn with the parameters of sample i")
        h.close1(h.flat(st["R.q"])[i], vals[i], "a parameter derived from the draw sees the same draw")
    h.cover("end")


def own_seed(h):
    """A node with a seed draws only from a generator started with that seed."""
    from lightcurvelynx.math_nodes import given_sampler as gs
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC

    kind = h.pick("kind", ("numpy", "binary", "given", "table", "radec", "distribution"))
    seed = h.pick("seed", (0, 7))
    n = h.pick("n", (1, 2))
    make = {
        "numpy": lambda s: NumpyRandomFunc("normal", loc=0.0, scale=1.0, seed=s),
        "binary": lambda s: gs.BinarySampler(0.5, seed=s),
        "given": lambda s: gs.GivenValueSampler([1, 2, 3], seed=s),
        "table": lambda s: gs.TableSampler({"a": [1.0, 2.0, 3.0]}, seed=s),
        "radec": lambda s: UniformRADEC(seed=s),
        "distribution": lambda s: DistributionSampler(np.array([0.0, 1.0, 2.0]), np.array([0.0, 1.0, 3.0]), seed=s),
    }[kind]
    nd = make(seed)
    reseed = h.pick("reseed", (False, True))
    if reseed:
        nd.set_seed(seed + 5)
        seed = seed + 5
    nd.sample_parameters(num_samples=n)
    used = [g for g in h.own if g.log]
    h.same([g.seed for g in used], [seed], "only a generator with the node's seed is drawn from")
    # nothing is drawn from it once a generator is given
    k = len(used[0].log)
    nd.sample_parameters(num_samples=n, rng_info=ScriptedRNG(h, "g"))
    h.same(len(used[0].log), k, "a given generator takes precedence")
    h.cover("end")


def effects(h):
    """White noise and measurement noise are centred on the flux, with the given scale, from the given generator."""
    from lightcurvelynx.astro_utils.noise_model import apply_noise
    from lightcurvelynx.effects.white_noise import WhiteNoise

    s = h.real("sigma", 0.0, 5.0)
    f = h.reals("f", 4, -10.0, 10.0)
    m = h.arr([f[:2], f[2:]])
    e = WhiteNoise(white_noise_sigma=s)
    rng = ScriptedRNG(h, "g")
    a = e.apply(m, white_noise_sigma=s, rng_info=rng)
    b = e.apply_bandflux(h.arr(f), white_noise_sigma=s, rng_info=rng)
    errs = h.reals("err", 4, 0.0, 5.0)
    d = apply_noise(h.arr(f), h.arr(errs), rng=rng)
    h.same(own_draws(h), [], "no draw from any other generator")
    h.same(len(rng.log), 12, "one independent draw per value")
    dr = [x for _, x in rng.log]
    for i in range(4):
        h.close1(h.flat(a)[i], f[i] + s * dr[i], "white noise of the given scale")
        h.close1(b[i], f[i] + s * dr[4 + i], "white noise of the given scale on bandfluxes")
        h.close1(d[i], f[i] + errs[i] * dr[8 + i], "measurement noise of each point's own error")
        h.close1(h.flat(m)[i], f[i], "the input flux is untouched")
    h.check(h.raises(lambda: e.apply(m, rng_info=rng), ValueError), "the scale is required")
    h.cover("end")


def model_reproducible(kind):
    """Sampling and evaluating a whole model twice from the same generator state gives the same fluxes."""

    def fn(h):
        from lightcurvelynx.effects.white_noise import WhiteNoise
        from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
        from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

        def one(label):
            return ConstantSEDModel(brightness=NumpyRandomFunc("uniform", low=1.0, high=5.0), t0=NumpyRandomFunc("normal", loc=0.0, scale=1.0), redshift=NumpyRandomFunc("uniform", low=0.1, high=0.2), ra=1.0, dec=2.0, node_label=label)

        if kind == "single":
            m = one("A")
        elif kind == "additive":
            m = AdditiveMultiObjectModel([one("A"), one("B")], node_label="M")
        else:
            m = RandomMultiObjectModel([one("A"), one("B")], object_names=["A", "B"], node_label="M")
        m.add_effect(WhiteNoise(white_noise_sigma=NumpyRandomFunc("uniform", low=0.1, high=0.2), rest_frame=h.pick("frame", (True, False))))
        n = h.pick("n", (1, 2))
        t, w = np.array([1.0, 2.0]), np.array([4000.0])

        def run(rng):
            st = m.sample_parameters(num_samples=n, rng_info=rng)
            return st, m.evaluate_sed(t, w, graph_state=st, rng_info=rng)

        rng = ScriptedRNG(h, "g")
        st, fl = run(rng)
        rng2 = rng.again()
        st2, fl2 = run(rng2)
        h.same(own_draws(h), [], "no draw from any other generator")
        same_states(h, flat_state(h, st), flat_state(h, st2), "the same generator state gives the same parameters")
        h.close(fl, fl2, "the same generator state gives the same fluxes")
        h.same(len(rng2.log), len(rng.log), "the same number of draws")
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


params_per_sample.must_cover = own_seed.must_cover = effects.must_cover = ("end",)

KINDS = (
    "uniform", "normal", "exponential", "vector", "chained", "binary", "given", "weighted", "table", "radec", "moc",
    "obs-centres", "obs-radius", "obs-uniform", "distribution", "pdf", "pdf-class", "hostmass-x1", "sn-coord",
    "pzflow", "pzflow-cond",
)  # fmt: skip


class FakeUnits:
    deg = degree = np.pi / 180.0
    rad = radian = 1.0
    arcmin, arcsec = deg / 60.0, deg / 3600.0
    kpc, pc, Mpc = 1.0, 1e-3, 1e3


class FakeAngle:
    def __init__(self, rad):
        self.deg = self.degree = rad * (180.0 / np.pi)
        self.rad = self.radian = rad


class FakeSky:
    """Stands for astropy's SkyCoord: an offset is some function of the centre, the angle and the separation."""

    def __init__(self, ra, dec, frame=None):
        self.ra, self.dec = FakeAngle(ra), FakeAngle(dec)
        self._ra, self._dec = ra, dec
        self.shape = np.shape(ra)
        self.size = int(np.prod(self.shape))

    def directional_offset_by(self, position_angle, separation):
        pa, sep = position_angle, separation
        return FakeSky(self._ra + sep * pa, self._dec + sep * 2.0 + pa * 0.5)


class FakeCosmo:
    def __init__(self, **k):
        pass

    def angular_diameter_distance(self, z):
        return 1000.0 * z


def patches(kind):
    def p(symbolic):
        import lightcurvelynx.astro_utils.snia_utils as sn
        import lightcurvelynx.math_nodes.distribution_sampler as ds
        import lightcurvelynx.math_nodes.scipy_random as sr

        out = [(sn, "NumericalInversePolynomial", FakeInvPoly), (sr, "NumericalInversePolynomial", FakeInvPoly)]
        if kind == "moc":
            import lightcurvelynx.math_nodes.ra_dec_sampler as rd
            from props.c06 import pix2sky

            out += [(rd, "healpix_to_skycoord", pix2sky(symbolic))]
        if symbolic:
            out += [(ds, "interp1d", Interp1d)]
            if kind == "sn-coord":
                out += [(sn, "SkyCoord", FakeSky), (sn, "u", FakeUnits), (sn, "FlatLambdaCDM", FakeCosmo)]
        return out

    return p


def cases(tier):
    r = [Case(f"node-{k}", node(k), random=True, patches=patches(k), bounds="1 or 2 samples") for k in KINDS]
    r += [
        Case("per-sample-parameters", params_per_sample, random=True, bounds="1..3 samples"),
        Case("own-seed", own_seed, random=True, patches=patches(""), bounds="1 or 2 samples"),
        Case("noise", effects, random=True, bounds="2x2 fluxes, 4 bandfluxes"),
    ]
    r += [Case(f"model-{k}", model_reproducible(k), random=True, bounds="1 or 2 samples, 2 times, 1 wavelength") for k in ("single", "additive", "random")]
    return r
