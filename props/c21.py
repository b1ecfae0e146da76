"""Models made of several objects: weighted sums and random choices, object by object and sample by sample."""

import numpy as np

from props.c13 import affine_effect
from props.c15 import trap
from props.c17 import WAVES, group, recorder
from props.common import listed, toy_flux, toy_sed_class
from symx.harness import ScriptedRNG
from symx.run import Case


def objects(h, n, count, red=True, label=True, bounds=None):
    """Toy objects with their own parameters; also their expected flux at (sample, time, wavelength)."""
    objs, flux = [], []
    for j in range(count):
        p = [[h.real(f"o{j}{k}{i}", -5, 5) for k in "abcd"] for i in range(n)]
        kw = {k: listed(h, [q[m] for q in p]) for m, k in enumerate("abcd")}
        z = None
        if red and j != 1:
            z, t0 = h.reals(f"z{j}_", n, 0.1, 3.0), h.reals(f"t0{j}_", n, -10.0, 10.0)
            kw.update(redshift=listed(h, z), t0=listed(h, t0))
        Toy = toy_sed_class(*(bounds[j] if bounds else (None, None)))
        objs.append(Toy(**kw, **({"node_label": f"obj{j}"} if label else {})))

        def f(i, t, w, p=p, z=z, t0=t0 if z else None):
            if z is None:
                return toy_flux(p[i], t, w)
            s = 1 + z[i]
            return s * toy_flux(p[i], t0[i] + (t - t0[i]) / s, w / s)

        flux.append(f)
    return objs, flux


def band_object(h, n, name, log=None):
    """A band flux model: v + u t, different per filter."""
    from lightcurvelynx.models.physical_model import BandfluxModel

    u, v = h.reals(f"{name}u", n, -5, 5), h.reals(f"{name}v", n, -5, 5)

    class Band(BandfluxModel):
        def __init__(self, **kw):
            super().__init__(**kw)
            self.add_parameter("u", listed(h, u))
            self.add_parameter("v", listed(h, v))

        def compute_bandflux(self, times, filters, state, rng_info=None):
            if log is not None:
                log.append(rng_info)
            p = self.get_local_params(state)
            return p["v"] + p["u"] * times + np.array([{"g": 1.0, "r": 2.0}[f] for f in filters])

    return Band(node_label=name), lambda i, t, f: v[i] + u[i] * t + {"g": 1.0, "r": 2.0}[f]


def additive(n):
    def fn(h):
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

        objs, flux = objects(h, n, 3)
        w = h.reals("w", 3, -2.0, 2.0) if h.pick("weights", (False, True)) else None
        k, m = [h.reals(f"k{e}_", n, -2, 2) for e in "xy"], [h.reals(f"m{e}_", n, -2, 2) for e in "xy"]
        log, seen = [], []
        mod = AdditiveMultiObjectModel(objs, weights=w, node_label="sum")
        effects = h.pick("effects", ("", "x", "y", "xy"))
        if "y" in effects:
            mod.add_effect(affine_effect("y", False, listed(h, k[1]), listed(h, m[1]), log))
        if "x" in effects:
            mod.add_effect(affine_effect("x", True, listed(h, k[0]), listed(h, m[0]), log))
        mod.add_effect(recorder(seen))
        st = mod.sample_parameters(num_samples=n)
        rng = ScriptedRNG(h, "rng")
        t, wv = h.reals("time", 2, -20, 20), h.reals("wave", 2, 100, 1000)
        f = mod.evaluate_sed(h.arr(t), h.arr(wv), st, rng_info=rng)
        h.same(h.shape(f), (2, 2) if n == 1 else (n, 2, 2), "shape")
        h.check(len(seen) >= n and all(r is rng for r in seen) and all(r is rng for _, r in log), "the given generator reaches every object")
        got = h.flat(f)
        for i in range(n):
            for a in range(2):
                for b in range(2):
                    total = 0.0
                    for j in range(3):
                        if "x" in effects:
                            v = rest_effect(h, objs, st, flux, i, j, t[a], wv[b], k[0][i], m[0][i])
                        else:
                            v = flux[j](i, t[a], wv[b])
                        total = total + (1.0 if w is None else w[j]) * v
                    if "y" in effects:
                        total = k[1][i] * total + m[1][i] * t[a] + wv[b]
                    h.close1(got[(i * 2 + a) * 2 + b], total, "the weighted sum of the objects, then the effects on the sum", rtol=1e-5, atol=1e-2)
        h.check(h.raises(lambda: AdditiveMultiObjectModel(objs, weights=[1.0, 2.0], node_label="bad"), ValueError), "one weight per object")
        h.check(h.raises(lambda: AdditiveMultiObjectModel([objs[0], 3], node_label="bad2"), ValueError), "objects must be models")
        h.cover("end")

    return fn


def rest_effect(h, objs, st, flux, i, j, t, w, k, m):
    """Object j with an effect in its own rest frame."""
    if j == 1:
        return k * flux[j](i, t, w) + m * t + w
    z = h.flat(objs[j].get_param(st, "redshift"))[i]
    t0 = h.flat(objs[j].get_param(st, "t0"))[i]
    s = 1 + z
    rest = flux[j](i, t, w) / s
    return s * (k * rest + m * (t0 + (t - t0) / s) + w / s)


def bands(n):
    """Band fluxes of a sum, including an object that is only known in bands."""

    def fn(h):
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

        g = group(h, "gr", symbolic=False)
        objs, flux = objects(h, n, 1)
        seen = []
        bo, bf = band_object(h, n, "bobj", seen)
        bo.add_effect(recorder(seen))
        objs[0].add_effect(recorder(seen))
        w = h.reals("w", 2, -2.0, 2.0)
        rand = h.pick("random", (False, True))
        first = h.pick("first", ("sed", "band"))
        both = [objs[0], bo] if first == "sed" else [bo, objs[0]]
        mod = RandomMultiObjectModel(both, node_label="r") if rand else AdditiveMultiObjectModel(both, weights=w, node_label="s")
        log = []
        k, m = h.reals("k", n, -2, 2), h.reals("m", n, -2, 2)
        mod.add_effect(affine_effect("y", False, listed(h, k), listed(h, m), log))
        st = mod.sample_parameters(num_samples=n)
        t = h.reals("time", 2, -20, 20)
        names = ["r", "g"]
        rng = ScriptedRNG(h, "rng")
        f = mod.evaluate_bandfluxes(g, h.arr(t), names, st, rng_info=rng)
        h.same(h.shape(f), (2,) if n == 1 else (n, 2), "shape")
        h.check(all(r is rng for _, r in log) and all(r is rng for r in seen), "the given generator reaches every object")
        h.check(len(log) == n and len(seen) >= n, "the effects are applied")
        got = h.flat(f)
        for i in range(n):
            for a, fl in enumerate(names):
                phi = h.flat(g[fl].processed_transmission_table[:, 1])
                sed = trap([flux[0](i, t[a], x) * q for x, q in zip(WAVES[fl], phi)], WAVES[fl])
                vals = [sed, bf(i, t[a], fl)] if first == "sed" else [bf(i, t[a], fl), sed]
                if rand:
                    sel = st.extract_single_sample(i)["r"]["selected_object"]
                    v = vals[0 if sel == both[0].node_string else 1]
                else:
                    v = w[0] * vals[0] + w[1] * vals[1]
                v = k[i] * v + m[i] * t[a] + {"g": 1.0, "r": 2.0}[fl]
                h.close1(got[i * 2 + a], v, "the combined band flux", rtol=1e-5, atol=1e-2)
        h.check(h.raises(lambda: mod.evaluate_sed(h.arr(t), np.array([500.0]), st), TypeError), "no spectrum with a band flux object")
        h.cover("end")

    return fn


def random_object(n):
    """Each sample is the object selected for it, by name."""

    def fn(h):
        from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel

        label = h.pick("labels", (True, False))
        lims = [(100.0, 900.0), (150.0, None), (None, 1000.0)]
        objs, flux = objects(h, n, 3, label=label, bounds=lims)
        given = h.pick("names", (None, ["one", "two", "three"]))
        w = h.pick("weights", (None, [0.0, 0.25, 0.75]))
        mod = RandomMultiObjectModel(objs, weights=w, object_names=given, node_label="any")
        k, m = h.reals("k", n, -2, 2), h.reals("m", n, -2, 2)
        log = []
        mod.add_effect(affine_effect("y", False, listed(h, k), listed(h, m), log))
        st = mod.sample_parameters(num_samples=n)
        sel = mod.get_param(st, "selected_object")
        sel = [sel] if n == 1 else list(sel)
        names = list(mod.object_map)
        h.same(len(names), 3, "every object has its own name")
        if given:
            h.same(names, given, "the given names")
        t, wv = h.real("time", -20, 20), h.real("wave", 160, 800)
        f = mod.evaluate_sed(h.arr([t]), h.arr([wv]), st)
        got = h.flat(f)
        for i in range(n):
            j = names.index(str(sel[i]))
            h.check(w is None or w[j] > 0, "only objects with a weight are selected")
            z = j != 1
            v = flux[j](i, t, wv)
            if z:  # a redshifted object is limited in its own frame
                zz = h.flat(objs[j].get_param(st, "redshift"))[i]
                rest = wv / (1 + zz)
                for b in lims[j]:
                    if b is not None:
                        h.assume(h.abs(rest - b) > 1e-3)
                if (lims[j][0] is not None and h.true(rest < lims[j][0])) or (lims[j][1] is not None and h.true(rest > lims[j][1])):
                    v = 0.0
            h.close1(got[i], k[i] * v + m[i] * t + wv, "the object selected for the sample", rtol=1e-5, atol=1e-3)
            one = st.extract_single_sample(i)
            h.same((mod.minwave(one), mod.maxwave(one)), lims[j], "the wavelength range is that of the selected object")
        h.cover("end")

    return fn


def chosen(h):
    """A choice fixed by the caller is kept, and is the object that is evaluated."""
    from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel

    n = h.pick("n", (1, 2))
    objs, flux = objects(h, n, 3, red=False)
    mod = RandomMultiObjectModel(objs, object_names=["a", "b", "c"], node_label="any")
    j = h.pick("choice", (0, 1, 2))
    st = mod.sample_parameters(given_args={"any": {"selected_object": "abc"[j] if n == 1 else np.array(["abc"[j], "abc"[j - 1]])}}, num_samples=n)
    t, wv = h.real("time", -20, 20), h.real("wave", 160, 800)
    got = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([wv]), st))
    for i in range(n):
        h.close1(got[i], flux[j if i == 0 else (j - 1) % 3](i, t, wv), "the given choice is evaluated", rtol=1e-5, atol=1e-3)
    h.cover("end")


def nested(h):
    """Sums of choices and choices of sums."""
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    n = h.pick("n", (1, 2))
    objs, flux = objects(h, n, 3, red=False)
    t, wv = h.real("time", -20, 20), h.real("wave", 100, 800)
    if h.pick("kind", ("sum", "choice")) == "sum":
        inner = RandomMultiObjectModel(objs[:2], object_names=["a", "b"], node_label="inner")
        w = h.reals("w", 2, -2, 2)
        mod = AdditiveMultiObjectModel([inner, objs[2]], weights=w, node_label="outer")
        st = mod.sample_parameters(num_samples=n)
        sel = inner.get_param(st, "selected_object")
        sel = [sel] if n == 1 else list(sel)
        want = [w[0] * flux["ab".index(str(sel[i]))](i, t, wv) + w[1] * flux[2](i, t, wv) for i in range(n)]
    else:
        inner = AdditiveMultiObjectModel(objs[:2], node_label="inner")
        mod = RandomMultiObjectModel([inner, objs[2]], object_names=["a", "b"], node_label="outer")
        st = mod.sample_parameters(num_samples=n)
        sel = mod.get_param(st, "selected_object")
        sel = [sel] if n == 1 else list(sel)
        want = [flux[0](i, t, wv) + flux[1](i, t, wv) if str(sel[i]) == "a" else flux[2](i, t, wv) for i in range(n)]
    if n == 1 and isinstance(mod, AdditiveMultiObjectModel):
        lo, hi = mod.minwave(st), mod.maxwave(st)
        h.same([len(lo), len(hi)], [2, 2], "the range of every object")
    got = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([wv]), st))
    for g, v in zip(got, want):
        h.close1(g, v, "objects of objects", rtol=1e-5, atol=1e-3)
    h.cover("end")


def shared(h):
    """Objects may share parameters with each other and with the model; the shift by redshift can be switched off for all."""
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

    Toy = toy_sed_class()
    n = 2
    z, t0 = h.reals("z", n, 0.1, 3.0), h.reals("t0_", n, -10, 10)
    p = [[h.real(f"{k}{j}", -5, 5) for k in "abcd"] for j in range(2)]
    host = Toy(*p[0], redshift=listed(h, z), t0=listed(h, t0), node_label="host")
    src = Toy(*p[1], redshift=host.redshift, t0=host.t0, node_label="src")
    mod = AdditiveMultiObjectModel([src, host] if h.pick("order", (True, False)) else [host, src], redshift=src.redshift, node_label="sum")
    on = h.pick("redshifted", ("default", "off", "on again"))
    if on != "default":
        mod.set_apply_redshift(False)
    if on == "on again":
        mod.set_apply_redshift(True)
    st = mod.sample_parameters(num_samples=n)
    t, w = h.real("time", -20, 20), h.real("wave", 100, 800)
    got = h.flat(mod.evaluate_sed(h.arr([t]), h.arr([w]), st))
    for i in range(n):
        s = 1 + z[i] if on != "off" else 1.0
        want = 0.0
        for q in p:
            want = want + (s * toy_flux(q, t0[i] + (t - t0[i]) / s, w / s) if on != "off" else toy_flux(q, t, w))
        h.close1(got[i], want, "every object at the shared redshift", rtol=1e-5, atol=1e-3)
        h.close1(h.flat(mod.get_param(st, "redshift"))[i], z[i], "the shared value")
    h.cover("end")


def graph(h):
    """The dependencies and gradient inputs reported for a model are those of all of its objects; sampling with the reported inputs reproduces the sample."""
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

    Toy = toy_sed_class()
    p = [[h.real(f"{k}{j}", -5, 5) for k in "abcd"] for j in range(3)]
    z, t0 = h.real("z", 0.1, 3.0), h.real("t0", -10, 10)
    host = Toy(*p[0], redshift=z, t0=t0, node_label="host")
    f = FunctionNode(lambda x: x * 2.0, x=host.a, node_label="f")
    src = Toy(f, *p[1][1:], redshift=host.redshift, t0=host.t0, node_label="src")
    objs = [src, host]
    if h.pick("nested", (False, True)):
        third = Toy(*p[2], node_label="third")
        objs = [AdditiveMultiObjectModel(objs, node_label="inner"), third]
    mod = AdditiveMultiObjectModel(objs, weights=[0.5, 2.0], node_label="sum")
    dg = mod.build_dependency_graph()
    for k, want in (("src.a", ["f.function_node_result"]), ("f.function_node_result", ["f.x"]), ("f.x", ["host.a"]), ("src.redshift", ["host.redshift"]), ("src.t0", ["host.t0"])):
        h.check(k in dg.all_params, "the parameters of every object are reported")
        h.same(sorted(dg.incoming[k]), want, "what a parameter of an object depends on")
    st = mod.sample_parameters()
    h.same(sorted(k for k in dg.all_params if not k.startswith("const_")), sorted(st.get_all_params_names()), "the reported parameters are the sampled ones")
    tree = mod.build_pytree(st)
    for name, q in (("host", p[0]), ("src", [None, *p[1][1:]])) + ((("third", p[2]),) if len(objs) > 1 and objs[1] is not host else ()):
        for k, v in zip("abcd", q):
            if v is not None:
                h.check(name in tree and k in tree[name], "the constants of every object are gradient inputs")
                h.close1(tree[name][k], v, "the value of a gradient input")
    h.same([sorted(tree["host"]), sorted(tree["src"])], [[*"abcd", "t0"], list("bcd")], "the constants of an object but its position and redshift")
    h.check("a" not in tree["src"] and "x" not in tree.get("f", {}), "derived values are no gradient inputs")
    d = h.real("d", -5, 5)
    tree["host"]["a"] = d
    again = mod.sample_parameters(given_args=tree)
    h.close1(again["host"]["a"], d, "a given input is used")
    h.close1(again["src"]["a"], 2.0 * d, "and all that depends on it follows")
    for k in ("b", "c", "d"):
        h.close1(again["src"][k], st["src"][k], "other parameters are the same")
    h.cover("end")


def refused(h):
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    objs, _ = objects(h, 1, 2, red=False)
    bo, _ = band_object(h, 1, "bobj")
    h.check(h.raises(lambda: RandomMultiObjectModel(objs, object_names=["a", "a"], node_label="r1"), ValueError), "names of objects are unique")
    h.check(h.raises(lambda: RandomMultiObjectModel(objs, object_names=["a"], node_label="r2"), ValueError), "one name per object")
    h.check(h.raises(lambda: RandomMultiObjectModel(objs, weights=[1.0], node_label="r3"), ValueError), "one weight per object")
    mod = AdditiveMultiObjectModel([objs[0], bo], node_label="s")
    h.check(h.raises(lambda: mod.set_apply_redshift(True), NotImplementedError), "band flux objects have no redshift to switch")
    h.cover("end")


def _e(f):
    f.must_cover = ("end",)
    return f


for fn in (chosen, nested, shared, graph, refused):
    _e(fn)


def cases(tier):
    r = dict(random=True)
    out = [
        Case("additive-1", _e(additive(1)), bounds="3 objects, 2 times, 2 wavelengths, rest-frame and observer-frame effects"),
        Case("additive-2", _e(additive(2)), bounds="3 objects, 2 samples"),
        Case("bands-1", _e(bands(1)), bounds="a spectral and a band flux object, sums and choices", **r),
        Case("bands-2", _e(bands(2)), bounds="a spectral and a band flux object, 2 samples", **r),
        Case("random-1", _e(random_object(1)), bounds="3 objects with wavelength limits", **r),
        Case("random-2", _e(random_object(2)), bounds="3 objects with wavelength limits, 2 samples", **r),
        Case("chosen", chosen, bounds="3 objects, 1-2 samples", **r),
        Case("nested", nested, bounds="3 objects, 1-2 samples", **r),
        Case("shared", shared, bounds="2 objects, 2 samples"),
        Case("graph", graph, bounds="2 or 3 objects, nested or not"),
        Case("refused", refused, bounds="2 objects", **r),
    ]
    if tier != "quick":
        out.append(Case("random-3", _e(random_object(3)), bounds="3 objects, 3 samples", tier="thorough", time_limit=600, max_paths=20000, **r))
        out.append(Case("additive-3", _e(additive(3)), bounds="3 objects, 3 samples", tier="thorough", time_limit=600))
    return out
