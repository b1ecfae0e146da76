"""Sampling the parameter graph: every parameter is its recipe applied to the same sample of its inputs."""

from symx.run import Case


class Counter:
    def __init__(self):
        self.n = {}

    def fn(self, name, f):
        def g(**kw):
            self.n[name] = self.n.get(name, 0) + 1
            return f(**kw)

        g.__name__ = name
        return g


def col(h, st, full, n, label):
    v = st[full]
    if n == 1:
        return [h.scalar(v, label)]
    h.same(h.shape(v), (n,), f"{label}: one value per sample")
    return h.flat(v)


def topology(h, cnt):
    """A graph of 3 nodes and up to 3 function nodes; returns root and the reference recipes.

    ref: full name -> ("const", v) | ("copy", full) | ("fn", f, {arg: full})
    """
    from lightcurvelynx.base_models import FunctionNode, ParameterizedNode

    class Nd(ParameterizedNode):
        def __init__(self, *, a=None, b=None, label=None):
            super().__init__(node_label=label)
            self.add_parameter("a", a)
            self.add_parameter("b", b)

    ref = {}
    c0, c1, c2, c3 = h.real("c0"), h.real("c1"), h.real("c2"), h.real("c3")
    n0 = Nd(a=c0, b=c1, label="N0")
    ref["N0.a"], ref["N0.b"] = ("const", c0), ("const", c1)

    def lin(x, y):
        return 2.0 * x - y

    def two(x, y):
        return x + 3.0 * y, x * 0.5

    shared = FunctionNode(cnt.fn("lin", lin), node_label="S", x=n0.a, y=c2)
    sref = {"S.x": ("copy", "N0.a"), "S.y": ("const", c2), "S.function_node_result": ("fn", lin, ("S.x", "S.y"))}
    multi = FunctionNode(cnt.fn("two", two), node_label="M", outputs=["a", "q"], x=n0.b, y=shared)
    mref = {
        "M.x": ("copy", "N0.b"),
        "M.y": ("copy", "S.function_node_result"),
        "M.a": ("fn", lambda x, y: two(x, y)[0], ("M.x", "M.y")),
        "M.q": ("fn", lambda x, y: two(x, y)[1], ("M.x", "M.y")),
        **sref,
    }
    s1 = h.pick("N1.a", ("getter", "node", "shared", "multi"))
    a1 = {"getter": n0.b, "node": n0, "shared": shared, "multi": multi}[s1]
    ref["N1.a"] = ("copy", {"getter": "N0.b", "node": "N0.a", "shared": "S.function_node_result", "multi": "M.a"}[s1])
    ref.update({"shared": sref, "multi": mref}.get(s1, {}))
    n1 = Nd(a=a1, b=n0.a, label="N1")
    ref["N1.b"] = ("copy", "N0.a")
    s2 = h.pick("N2.a", ("N1.a", "fn", "shared", "M.q"))
    if s2 == "fn":
        f2 = FunctionNode(cnt.fn("lin2", lin), node_label="F", x=n1.a, y=n1.b)
        a2 = f2
        ref["N2.a"] = ("copy", "F.function_node_result")
        ref.update({"F.x": ("copy", "N1.a"), "F.y": ("copy", "N1.b"), "F.function_node_result": ("fn", lin, ("F.x", "F.y"))})
    else:
        a2 = {"N1.a": n1.a, "shared": shared, "M.q": multi.q}[s2]
        ref["N2.a"] = ("copy", {"N1.a": "N1.a", "shared": "S.function_node_result", "M.q": "M.q"}[s2])
        ref.update({"shared": sref, "M.q": mref}.get(s2, {}))
    s3 = h.pick("N2.b", ("const", "N1", "shared"))
    b2 = {"const": c3, "N1": n1, "shared": shared}[s3]
    ref["N2.b"] = {"const": ("const", c3), "N1": ("copy", "N1.b"), "shared": ("copy", "S.function_node_result")}[s3]
    ref.update({"shared": sref}.get(s3, {}))
    root = Nd(a=a2, b=b2, label="N2")
    # only what the root reaches is sampled
    reach, todo = set(), ["N2.a", "N2.b"]
    while todo:
        k = todo.pop()
        node = k.split(".")[0]
        if any(r.startswith(node + ".") for r in reach):
            continue
        for full in [q for q in ref if q.split(".")[0] == node]:
            reach.add(full)
            r = ref[full]
            todo += [r[1]] if r[0] == "copy" else (list(r[2]) if r[0] == "fn" else [])
    return root, {k: v for k, v in ref.items() if k in reach}, dict(n0=n0, n1=n1, shared=shared, multi=multi)


def verify(h, st, ref, n, given, label):
    names = st.get_all_params_names()
    h.same(sorted(names), sorted(set(ref) | set(given)), f"{label}: exactly the reachable parameters")
    vals = {k: col(h, st, k, n, label) for k in ref}
    for k, r in ref.items():
        for i in range(n):
            if k in given:
                want = given[k][i]
            elif r[0] == "const":
                want = r[1]
            elif r[0] == "copy":
                want = vals[r[1]][i]
            else:
                want = r[1](*[vals[q][i] for q in r[2]])
            h.close1(vals[k][i], want, f"{label}: {k.split('.')[1]} of sample follows its recipe")


def graph(sizes, given_opts):
    def fn(h):
        cnt = Counter()
        n = h.pick("n", sizes)
        root, ref, nodes = topology(h, cnt)
        g = h.pick("given", given_opts)
        given, args = {}, None
        if g is not None and g in ref:
            vs = h.reals("g", n)
            given[g] = vs
            a, b = g.split(".")
            args = {a: {b: h.arr(vs) if n > 1 else vs[0]}}
        elif g is not None:
            return h.cover("end")
        st = root.sample_parameters(given_args=args, num_samples=n)
        verify(h, st, ref, n, given, "sampling")
        for name, k in cnt.n.items():
            h.same(k, 1, f"{name} is evaluated once per sampling")
        h.check(not any(k in st.fixed_vars.get("N0", ()) for k in ("a", "b")) or bool(given), "nothing else is fixed")
        # sampling again gives fresh, equally consistent values
        before = st.copy()
        st2 = root.sample_parameters(num_samples=1)
        verify(h, st2, ref, 1, {}, "sampling again")
        verify(h, st, ref, n, given, "earlier sample is untouched")
        h.check(st == before, "earlier sample is unchanged")
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


def repoint(h):
    """Changing recipes between samplings."""
    cnt = Counter()
    n = h.pick("n", (1, 2))
    root, ref, nodes = topology(h, cnt)
    root.sample_parameters(num_samples=n)
    what = h.pick("what", ("inner-const", "root-const", "root-getter"))
    v = h.real("new")
    if what == "inner-const":
        nodes["n0"].set_parameter("a", v)
        ref["N0.a"] = ("const", v)
    elif what == "root-const":
        root.set_parameter("b", v)
        ref["N2.b"] = ("const", v)
    else:
        root.set_parameter("b", nodes["n0"].b)
        ref["N2.b"] = ("copy", "N0.b")
    st = root.sample_parameters(num_samples=n)
    have = st.get_all_params_names()
    vals = {k: col(h, st, k, n, "again") for k in have}
    for k in have:
        r = ref[k]
        for i in range(n):
            want = r[1] if r[0] == "const" else vals[r[1]][i] if r[0] == "copy" else r[1](*[vals[q][i] for q in r[2]])
            h.close1(vals[k][i], want, "after changing a recipe")
    h.cover("end")


def unlabeled(h):
    """Nodes without labels get distinct names, so that no parameter overwrites another's."""
    from lightcurvelynx.base_models import FunctionNode, ParameterizedNode

    class Nd(ParameterizedNode):
        def __init__(self, **kw):
            super().__init__()
            for k, v in kw.items():
                self.add_parameter(k, v)

    def f(x):
        return x + 1.0

    n = h.pick("n", (1, 2))
    c = h.reals("c", 3)
    p, q = Nd(a=c[0]), Nd(a=c[1])
    fp, fq = FunctionNode(f, x=p.a), FunctionNode(f, x=q.a)
    r = Nd(a=fp, b=fq, d=c[2], e=p.a, f=q.a)
    st = r.sample_parameters(num_samples=n)
    for k, w in (("a", c[0] + 1.0), ("b", c[1] + 1.0), ("d", c[2]), ("e", c[0]), ("f", c[1])):
        for g in h.flat(r.get_param(st, k)):
            h.close1(g, w, "value read through the node")
    for node, w in ((p, c[0]), (q, c[1])):
        for g in h.flat(node.get_param(st, "a")):
            h.close1(g, w, "value read through the inner node")
        for g in h.flat(node.get_local_params(st)["a"]):
            h.close1(g, w, "local parameters")
    h.same(len({str(x) for x in (p, q, fp, fq, r)}), 5, "distinct node names")
    h.check(r.get_param(st, "nope", 7) == 7, "default of an unknown parameter")
    gen = fp.generate(num_samples=n)
    for g in h.flat(gen):
        h.close1(g, c[0] + 1.0, "generate returns the node's own result")
    # two parameters get new nodes of the same kind after the graph was sampled
    p2, q2 = h.real("p2"), h.real("q2")
    r.set_parameter("a", FunctionNode(f, x=p2))
    r.set_parameter("b", FunctionNode(f, x=q2))
    st = r.sample_parameters(num_samples=n)
    for k, w in (("a", p2 + 1.0), ("b", q2 + 1.0), ("d", c[2]), ("e", c[0]), ("f", c[1])):
        for g in h.flat(r.get_param(st, k)):
            h.close1(g, w, "value after new nodes were assigned")
    # the same label twice is refused
    bad = Nd(a=ParameterizedNodeWith(c[0]).a, b=ParameterizedNodeWith(c[1]).a)
    h.check(h.raises(lambda: bad.sample_parameters(), ValueError), "duplicate labels are refused")
    h.cover("end")


def regrow(h):
    """Nodes added anywhere in a graph that was sampled before get names of their own."""
    from lightcurvelynx.base_models import FunctionNode

    calls = []

    def f(x):
        calls.append(1)
        return x + 1.0

    def g(a, b):
        return a + 10.0 * b

    n = h.pick("n", (1, 2))
    c = h.reals("c", 6)
    label = {"node_label": "mid"} if h.pick("labeled", (False, True)) else {}
    mid = FunctionNode(g, a=c[0], b=c[1], **label)
    root = FunctionNode(g, a=mid, b=FunctionNode(f, x=c[2]))
    vals = lambda st: h.flat(root.get_param(st, "function_node_result"))
    for v in vals(root.sample_parameters(num_samples=n)):
        h.close1(v, c[0] + 10.0 * c[1] + 10.0 * (c[2] + 1.0), "before")
    new = [FunctionNode(f, x=c[3]), FunctionNode(f, x=c[4])]
    if h.pick("used", (False, True)):
        for k in new:  # each has a graph of its own
            k.sample_parameters(num_samples=n)
    mid.set_parameter("a", new[0])
    mid.set_parameter("b", new[1])
    if h.pick("deps first", (False, True)):
        dg = root.build_dependency_graph()
        h.same(len({k for k in dg.all_params if k.endswith(".x")}), 3, "every node is reported")
    calls.clear()
    st = root.sample_parameters(num_samples=n)
    h.same(len(calls), 3, "every node is evaluated once")
    h.same(len({str(k) for k in (root, mid, *new)}), 4, "every node has a name of its own")
    for v in vals(st):
        h.close1(v, (c[3] + 1.0) + 10.0 * (c[4] + 1.0) + 10.0 * (c[2] + 1.0), "after")
    for k, v in zip(new, c[3:5]):
        for x in h.flat(k.get_param(st, "x")):
            h.close1(x, v, "the value of a new node")
    names = [str(k) for k in (root, mid, *new)]
    root.sample_parameters(num_samples=n)
    h.same([str(k) for k in (root, mid, *new)], names, "names stay while the graph stays")
    h.cover("end")


def ParameterizedNodeWith(v):
    from lightcurvelynx.base_models import ParameterizedNode

    nd = ParameterizedNode(node_label="dup")
    nd.add_parameter("a", v)
    return nd


def fixed_function_args(h):
    from lightcurvelynx.base_models import FunctionNode

    def f(x, y, z):
        return x * 1.0 + y * 10.0 + z * 100.0

    n = h.pick("n", (1, 2))
    x, y, z = h.real("x"), h.real("y"), h.real("z")
    nd = FunctionNode(f, fixed_params={"z": z}, x=x, y=y)
    for g in h.flat(nd.generate(num_samples=n)):
        h.close1(g, x + y * 10.0 + z * 100.0, "fixed function parameters")
    st = nd.sample_parameters(num_samples=n)
    h.check("z" not in st[str(nd)], "a fixed function parameter is no model parameter")
    y2 = h.real("y2")
    r = nd.compute(st, y=y2)
    for g in h.flat(r):
        h.close1(g, x + y2 * 10.0 + z * 100.0, "arguments given to compute")
    h.cover("end")


def dependency_graph(h):
    """The reported dependency edges are the ones sampling follows; the gradient inputs are the constants."""
    cnt = Counter()
    root, ref, nodes = topology(h, cnt)
    dg = root.build_dependency_graph()
    real = {k for k in dg.all_params if not k.startswith("const_")}
    h.same(sorted(real), sorted(ref), "parameters of the dependency graph")
    for k, r in ref.items():
        inc = sorted(dg.incoming[k])
        if r[0] == "const":
            h.check(len(inc) == 1 and inc[0].startswith("const_"), "a constant parameter depends on its constant")
        elif r[0] == "copy":
            h.same(inc, [r[1]], "a copied parameter depends on its source")
        else:
            h.same(inc, sorted(r[2]), "a computed parameter depends on the inputs")
        for p in inc:
            h.check(k in dg.outgoing[p], "edges are recorded in both directions")
    st = root.sample_parameters()
    tree = root.build_pytree(st)
    flat = {f"{a}.{b}": v for a, d in tree.items() for b, v in d.items()}
    want = {k for k, r in ref.items() if r[0] == "const"}
    h.same(sorted(flat), sorted(want), "the gradient inputs are exactly the constants")
    for k in want:
        h.close1(flat[k], ref[k][1], "gradient input value")
    h.cover("end")


for _f in (repoint, unlabeled, regrow, fixed_function_args, dependency_graph):
    _f.must_cover = ("end",)


def cases(tier):
    r = [
        Case("graph", graph((1, 2), (None, "N0.a", "S.function_node_result")), bounds="3 nodes, up to 3 function nodes, 48 topologies, 1-2 samples, given arguments"),
        Case("repoint", repoint, bounds="48 topologies, 1-2 samples"),
        Case("unlabeled", unlabeled, bounds="5 nodes"),
        Case("regrow", regrow, bounds="up to 6 nodes, 1-2 samples"),
        Case("function-args", fixed_function_args, bounds="3 arguments"),
        Case("dependencies", dependency_graph, bounds="48 topologies"),
    ]
    if tier == "thorough":
        r.append(Case("graph-3", graph((1, 2, 3), (None, "N0.a", "N0.b", "N1.a", "M.a", "M.x", "F.x", "N2.b", "S.y")), bounds="1-3 samples, 9 given-argument choices", max_paths=20000, time_limit=1200))
    return r
