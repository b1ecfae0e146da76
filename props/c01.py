"""The sampled-parameter container: storage, access paths, fixing, copying, concatenation."""

import numpy as np

from symx.run import Case

NODES = ("A", "B")
PARAMS = ("x", "y")


def expect(h, st, ref, n, label, order=None):
    """Every access path of st agrees with ref {(node, param): [values]}."""
    h.same(st.num_samples, n, f"{label}: num_samples")
    h.same(len(st), len(ref), f"{label}: number of parameters")
    names = st.get_all_params_names()
    h.same(sorted(names), sorted(f"{a}.{b}" for a, b in ref), f"{label}: parameter names")
    d = st.to_dict()
    h.same(sorted(d), sorted(names), f"{label}: to_dict keys")
    for (a, b), vals in ref.items():
        full = f"{a}.{b}"
        h.check(full in st and a in st, f"{label}: contains")
        for got, how in ((st[full], "full name"), (st[a][b], "node then parameter"), (d[full], "to_dict"), (st.extract_parameters(full)[full], "extract_parameters")):
            if n == 1:
                h.close1(h.scalar(got, f"{label}: {how}"), vals[0], f"{label}: {how}")
            else:
                h.close(got, vals, f"{label}: {how}")
    for i in range(n):
        one = st.extract_single_sample(i)
        h.same(one.num_samples, 1, f"{label}: a single sample")
        h.same(len(one), len(ref), f"{label}: a single sample has all parameters")
        for (a, b), vals in ref.items():
            h.close1(h.scalar(one[f"{a}.{b}"], f"{label}: single sample"), vals[i], f"{label}: single sample")
            h.close1(h.scalar(st.get_node_state(a, i)[b], f"{label}: get_node_state"), vals[i], f"{label}: get_node_state")
    k = 0
    for i, one in enumerate(st):
        k += 1
        for (a, b), vals in ref.items():
            h.close1(one[f"{a}.{b}"], vals[i], f"{label}: iteration")
    h.same(k, n, f"{label}: iteration length")
    for bad in (-1, n):
        h.check(h.raises(lambda bad=bad: st.extract_single_sample(bad), ValueError), f"{label}: sample number out of range")
        if ref:
            nd = next(iter(ref))[0]
            h.check(h.raises(lambda bad=bad, nd=nd: st.get_node_state(nd, bad), ValueError), f"{label}: sample number out of range")


class Model:
    """Reference semantics."""

    def __init__(self, n):
        self.n, self.ref, self.fixed = n, {}, set()

    def set(self, key, vals, fixed):
        if key in self.fixed:
            return
        self.ref[key] = list(vals)
        if fixed:
            self.fixed.add(key)


def history(nops, sizes):
    def fn(h):
        from lightcurvelynx.graph_state import GraphState

        n = h.pick("n", sizes)
        st = GraphState(n)
        m = Model(n)
        for k in range(nops):
            op = h.pick(f"op{k}", ("set-scalar", "set-array", "update-dict", "update-state1", "update-staten", "copy"))
            fixed = h.pick(f"fix{k}", (False, True)) if op != "copy" else False
            key = ("A", "x") if k == 0 or op == "copy" else h.pick(f"key{k}", (("A", "x"), ("A", "y"), ("B", "x")))
            if op == "set-scalar":
                v = h.real(f"v{k}")
                st.set(*key, v, fixed=fixed)
                m.set(key, [v] * n, fixed)
            elif op == "set-array":
                if n == 1:
                    v = h.real(f"v{k}")
                    st.set(*key, v, force_copy=False, fixed=fixed)
                    m.set(key, [v], fixed)
                else:
                    fc = h.pick(f"copy{k}", (False, True))
                    vs = h.reals(f"v{k}_", n)
                    a = h.arr(vs)
                    st.set(*key, a, force_copy=fc, fixed=fixed)
                    if fc:
                        a[0] = a[0] + 1.0  # the stored values must not follow
                    m.set(key, vs, fixed)
            elif op == "update-dict":
                vs = h.reals(f"v{k}_", n)
                w = h.real(f"w{k}")
                st.update({key[0]: {key[1]: h.arr(vs) if n > 1 else vs[0]}, "C": {"z": w}}, all_fixed=fixed)
                m.set(key, vs, fixed)
                m.set(("C", "z"), [w] * n, fixed)
            elif op == "update-state1":
                v = h.real(f"v{k}")
                o = GraphState(1)
                o.set(*key, v)
                st.update(o, all_fixed=fixed)
                m.set(key, [v] * n, fixed)
            elif op == "update-staten":
                vs = h.reals(f"v{k}_", n)
                o = GraphState(n)
                o.set(*key, h.arr(vs) if n > 1 else vs[0])
                st.update(o, all_fixed=fixed, force_copy=n > 1)
                m.set(key, vs, fixed)
            else:
                old = st
                st = old.copy()
                h.check(st == old, "a copy equals the original")
                # changing the original (with a new parameter and with new values) leaves the copy alone
                old.set("A", "only_in_old", h.real(f"v{k}"))
                if n > 1 and ("A", "x") in m.ref:
                    old["A.x"][0] = old["A.x"][0] + 1.0
        expect(h, st, m.ref, n, "after the history")
        c = st.copy()
        expect(h, c, m.ref, n, "copy")
        # fixing values in one store does not fix them in its copy
        c1, c2 = st.copy(), st.copy()
        c3 = c2.copy()
        for key in sorted(m.ref):
            c1.set(*key, 77.0, fixed=True)
            c2.set(*key, 77.0, fixed=True)
            c3.set(*key, 78.0)
        new3 = {k: v if k in m.fixed else [78.0] * n for k, v in m.ref.items()}
        expect(h, c3, new3, n, "copy of a store in which values are fixed later")
        for key in sorted(m.ref):  # fixed parameters stay fixed (also in the copy)
            for s in (c, st):
                s.set(*key, 12345.0)
        new = {k: v if k in m.fixed else [12345.0] * n for k, v in m.ref.items()}
        expect(h, c, new, n, "copy after overwriting")
        expect(h, st, new, n, "after overwriting")
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


def wrong_size(h):
    from lightcurvelynx.graph_state import GraphState

    n = h.pick("n", (2, 3))
    k = h.pick("k", (1, 2, 3, 4))
    st = GraphState(n)
    v0 = h.reals("v", n)
    st.set("A", "x", h.arr(v0))
    w = h.reals("w", k)
    if k == n:
        st.set("A", "x", h.arr(w))
        expect(h, st, {("A", "x"): w}, n, "matching size")
    else:
        h.check(h.raises(lambda: st.set("A", "x", h.arr(w)), ValueError), "a wrong number of samples is refused")
        expect(h, st, {("A", "x"): v0}, n, "unchanged after a refused set")
        h.check(h.raises(lambda: st.set("A", "new", h.arr(w)), ValueError), "a wrong number of samples is refused for a new parameter")
        h.check(h.raises(lambda: st.set("N", "new", h.arr(w)), ValueError), "a wrong number of samples is refused for a new node")
        expect(h, st, {("A", "x"): v0}, n, "unchanged after a refused new parameter")
        h.check("N" not in st, "a refused set adds no node")
        o = GraphState(k)
        o.set("A", "x", h.arr(w) if k > 1 else w[0])
        if k > 1:
            h.check(h.raises(lambda: st.update(o), ValueError), "an update with a wrong number of samples is refused")
            expect(h, st, {("A", "x"): v0}, n, "unchanged after a refused update")
    h.check(h.raises(lambda: st.set("A.b", "x", 1.0), ValueError), "separator in a node name")
    h.check(h.raises(lambda: st.set("A", "x.y", 1.0), ValueError), "separator in a parameter name")
    h.check(h.raises(lambda: GraphState(0), ValueError), "no samples")
    h.check(h.raises(lambda: st["Q.x"], KeyError), "unknown node")
    h.check(h.raises(lambda: st["A.q"], KeyError), "unknown parameter")
    h.check(h.raises(lambda: st["q"], KeyError), "unknown short name")
    h.check(h.raises(lambda: st.extract_parameters("q"), KeyError), "unknown parameter to extract")
    h.check(h.raises(lambda: st.extract_parameters(["A.q"]), KeyError), "unknown full name to extract")
    h.cover("end")


wrong_size.must_cover = ("end",)


def concat(h):
    from lightcurvelynx.graph_state import GraphState

    sizes = h.pick("sizes", ((1,), (2,), (1, 1), (2, 1), (1, 3), (2, 2), (1, 2, 1)))
    keys = [("A", "x"), ("A", "y"), ("B", "x")]
    ref = {k: [] for k in keys}
    parts = []
    for j, n in enumerate(sizes):
        as_dict = n == 1 and h.pick(f"dict{j}", (False, True))
        s = GraphState(n)
        d = {}
        for k in keys if j % 2 == 0 else keys[::-1]:
            vs = h.reals(f"v{j}{k[0]}{k[1]}_", n)
            ref[k] += vs
            s.set(*k, h.arr(vs) if n > 1 else vs[0])
            d.setdefault(k[0], {})[k[1]] = vs[0]
        parts.append(d if as_dict else s)
    r = GraphState.from_list(parts)
    n = sum(sizes)
    expect(h, r, ref, n, "concatenation")
    bad = GraphState(1)
    bad.set("A", "x", h.real("bad"))
    h.check(h.raises(lambda: GraphState.from_list(parts + [bad]), ValueError), "different parameters are refused")
    h.check(h.raises(lambda: GraphState.from_list([]), ValueError), "an empty list is refused")
    h.cover("end")


concat.must_cover = ("end",)


def conversions(h):
    from lightcurvelynx.graph_state import GraphState

    n = h.pick("n", (1, 2, 3))
    keys = [("A", "x"), ("A", "y"), ("B", "x")]
    st = GraphState(n)
    ref = {}
    for k in keys:
        vs = h.reals(f"v{k[0]}{k[1]}_", n)
        ref[k] = vs
        st.set(*k, h.arr(vs) if n > 1 else vs[0])
    flat = st.to_dict()
    how = h.pick("how", ("flat", "nested", "table"))
    if how == "flat":
        back = GraphState.from_dict({k: (h.arr(v) if n > 1 else v) for k, v in flat.items()}, num_samples=n)
    elif how == "nested":
        nest = {}
        for (a, b), v in ref.items():
            nest.setdefault(a, {})[b] = h.arr(v) if n > 1 else v[0]
        back = GraphState.from_dict(nest, num_samples=n)
    else:
        t = st.to_table()
        h.same(sorted(t.colnames), sorted(flat), "table columns")
        h.same(len(t), n, "table rows")
        back = GraphState.from_table(t)
    expect(h, back, ref, n, f"round trip via {how}")
    h.check(back == st, "the round trip gives an equal state")
    # the short names
    ex = st.extract_parameters(["x", "y"])
    h.same(sorted(ex), ["A.x", "B.x", "y"], "ambiguous short names are expanded")
    for name, k in (("A.x", keys[0]), ("B.x", keys[2]), ("y", keys[1])):
        if n == 1:
            h.close1(ex[name], ref[k][0], "extracted by short name")
        else:
            h.close(ex[name], ref[k], "extracted by short name")
    h.check("Q" not in st and "A.q" not in st, "no unknown entries")
    # equality is sensitive to every value
    other = st.copy()
    k = h.pick("changed", keys)
    v2 = list(ref[k])
    v2[-1] = h.real("new")
    h.assume(h.abs(v2[-1] - ref[k][-1]) > 1.0 + h.abs(ref[k][-1]) * 0.1)
    other.set(*k, h.arr(v2) if n > 1 else v2[0])
    h.check(h.Not(other == st), "states with a different value differ")
    h.cover("end")


conversions.must_cover = ("end",)


def single_node_access(h):
    from lightcurvelynx.graph_state import GraphState, transpose_dict_of_list

    n = h.pick("n", (1, 2))
    st = GraphState(n)
    vs = h.reals("v", n)
    st.set("A", "x", h.arr(vs) if n > 1 else vs[0])
    got = st["x"]
    for g, v in zip(h.flat(got), vs):
        h.close1(g, v, "parameter of the only node by its short name")
    h.check("x" in st, "short name of the only node")
    d = {"p": h.arr(h.reals("p", 2)), "q": h.arr(h.reals("q", 2))}
    rows = transpose_dict_of_list(d, 2)
    for i in range(2):
        for k in d:
            h.close1(rows[i][k], d[k][i], "transposed rows")
    h.check(h.raises(lambda: transpose_dict_of_list(d, 3), ValueError), "transposing checks the lengths")
    h.cover("end")


def rich(h):
    """Parameters whose value for a sample is a vector, a word or missing keep it for that sample on every path."""
    from lightcurvelynx.graph_state import GraphState

    sizes = h.pick("sizes", ((1,), (2,), (1, 1), (2, 1), (1, 3)))
    kind = h.pick("kind", ("vector", "matrix", "word", "none"))
    total = sum(sizes)
    nums = h.reals("x", total, -5.0, 5.0)
    if kind == "vector":
        w = h.pick("width", (1, 2, 3))
        vals = [h.reals(f"v{i}_", w, -5.0, 5.0) for i in range(total)]
    elif kind == "matrix":
        flat = [h.reals(f"v{i}_", 4, -5.0, 5.0) for i in range(total)]
        vals = [[f[:2], f[2:]] for f in flat]
    else:
        vals = [("w" * (3 * i % 5), "")[i % 3 == 2] if kind == "word" else None for i in range(total)]
    listed = h.pick("as a list", (False, True)) if kind in ("vector", "matrix") else False

    def same(got, want, label):
        if kind in ("vector", "matrix"):
            h.same(h.shape(got), h.shape(h.arr(want)), label)
            for g, v in zip(h.flat(got), h.flat(h.arr(want))):
                h.close1(g, v, label)
        else:
            h.same(None if got is None else str(got), want, label)

    def check(st, ids, label):
        h.same(st.num_samples, len(ids), label)
        for i, k in enumerate(ids):
            one = st.extract_single_sample(i)
            for got in (one["A.v"], st.get_node_state("A", i)["v"], st["A.v"] if len(ids) == 1 else st["A"]["v"][i], st.to_dict()["A.v"] if len(ids) == 1 else st.extract_parameters("v")["v"][i]):
                same(got, vals[k], f"{label}: the value of the sample")
            h.close1(h.flat(one["B.x"])[0], nums[k], f"{label}: other parameters")

    parts, start = [], 0
    for n in sizes:
        ids = list(range(start, start + n))
        start += n
        st = GraphState(n)
        block = [vals[k] for k in ids]
        if kind in ("vector", "matrix"):
            v = block if n > 1 else block[0]
            v = v if listed else h.arr(v)
        else:
            v = np.array(block, dtype=object if kind == "none" else None) if n > 1 else block[0]
        x = h.arr([nums[k] for k in ids]) if n > 1 else nums[ids[0]]
        if h.pick(f"by update {start}", (False, True)):
            st.update({"A": {"v": v}, "B": {"x": x}})
        else:
            st.set("A", "v", v)
            st.set("B", "x", x)
        check(st, ids, "set")
        check(st.copy(), ids, "copied")
        check(GraphState.from_dict({"A": {"v": h.arr(v) if listed else v}, "B": {"x": x}}, num_samples=n), ids, "from a dictionary")
        h.check(st == st.copy(), "a copy is equal")
        parts.append(st)
    check(GraphState.from_list(parts), list(range(total)), "joined")
    # a single sample applies to each of several
    if sizes[0] == 1:
        m = h.pick("many", (2, 3))
        many = GraphState(m)
        many.set("B", "y", h.arr(h.reals("y", m)))
        many.update(parts[0], force_copy=h.pick("force_copy", (False, True)))
        for i in range(m):
            same(many["A"]["v"][i], vals[0], "updated from a single sample")
            same(many.extract_single_sample(i)["A.v"], vals[0], "updated from a single sample")
            h.close1(h.flat(many["B"]["x"])[i], nums[0], "updated from a single sample")
    # no data is shared with a copy
    if kind in ("vector", "matrix"):
        a = h.arr(vals[0])
        one, two = GraphState(1), GraphState(1)
        one.set("A", "v", a)
        two.set("A", "v", a, force_copy=True)
        three, four = one.copy(), GraphState(1)
        four.update(one, force_copy=True)
        five = GraphState.from_dict({"A.v": a})
        a[0] = h.arr(vals[0])[0] + 1.0
        for st, label in ((two, "set with force_copy"), (three, "copy"), (four, "update with force_copy"), (five, "from_dict")):
            same(st["A.v"], vals[0], f"{label} shares no data")
    h.cover("end")


rich.must_cover = ("end",)


def cases(tier):
    r = [
        Case("history-2", history(2, (1, 2)), bounds="2 operations, 1-2 samples, 3 parameters", max_paths=3000),
        Case("wrong-size", wrong_size, bounds="2-3 samples against 1-4 values"),
        Case("concatenation", concat, bounds="up to 3 parts, up to 4 samples"),
        Case("conversions", conversions, bounds="1-3 samples, 3 parameters"),
        Case("rich-values", rich, bounds="vectors of 1-3 and 2x2 matrices of symbols, words, missing values; up to 3 parts and 4 samples"),
        Case("single-node", single_node_access, bounds="1-2 samples"),
    ]
    if tier == "thorough":
        r.append(Case("history-3", history(3, (1, 2, 3)), tier="thorough", bounds="3 operations, 1-3 samples", max_paths=40000, time_limit=1500))
    return r
