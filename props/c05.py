"""Math expressions: every backend evaluates the expression per sample, and anything but arithmetic is refused."""

import numpy as np

from symx import core
from symx.run import Case

F = {k: core.s_generic(k, getattr(np, "arc" + k[1:])) for k in ("asinh", "acosh")}


def build(h, expr, backend, n, **vals):
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    args = {k: GivenValueList(h.arr(v)) for k, v in vals.items()}
    return BasicMathNode(expr, backend=backend, node_label="E", **args)


EXPRS = {
    "arith": ("a + b * c - a / c", lambda h, a, b, c: a + b * c - a / c),
    "parens": ("-(a - b) * (c + 2.5) + a", lambda h, a, b, c: -(a - b) * (c + 2.5) + a),
    "assoc": ("a - b - c / 2.0 / 4.0", lambda h, a, b, c: a - b - c / 8.0),
    "power": ("a ** 2 - b ** 3", lambda h, a, b, c: a * a - b * b * b),
    "negpow": ("-a ** 2 + c", lambda h, a, b, c: -(a * a) + c),
    "maxmin": ("max(a, b) - min(a, c)", lambda h, a, b, c: h.max(a, b) - h.min(a, c)),
    "max3": ("max(a, b, c)", lambda h, a, b, c: h.max(a, h.max(b, c))),
    "clip": ("max(a, 0)", lambda h, a, b, c: h.max(a, 0.0)),
    "abs": ("abs(a - b) + fabs(c)", lambda h, a, b, c: h.abs(a - b) + c),
    "exp-log": ("exp(a) + log10(c)", lambda h, a, b, c: h.exp(a) + h.log10(c)),
    "sqrt": ("sqrt(c) * 2", lambda h, a, b, c: h.sqrt(c) * 2),
    "trig": ("sin(a) + cos(b)", lambda h, a, b, c: h.sin(a) + h.cos(b)),
    "deg": ("sin(deg2rad(a)) + sin(radians(b))", lambda h, a, b, c: h.sin(h.rad(a)) + h.sin(h.rad(b))),
    "pi": ("a * pi + e", lambda h, a, b, c: a * np.pi + np.e),
    "pow-fn": ("pow(c, 2) + power(a, 2)", lambda h, a, b, c: c * c + a * a),
    "inverse": ("asin(a / 7) - acos(b / 7) + atan(c)", lambda h, a, b, c: core.s_asin(a / 7) - core.s_acos(b / 7) + core.s_atan(c)),
    "tan": ("tan(a / 5) + atan2(b, c)", lambda h, a, b, c: core.s_tan(a / 5) + core.s_atan2(b, c)),
    "hyperbolic": ("sinh(a / 6) + cosh(b / 6) - tanh(c)", lambda h, a, b, c: core.s_sinh(a / 6) + core.s_cosh(b / 6) - core.s_tanh(c)),
    "inverse-hyperbolic": ("asinh(a) + acosh(c + 1)", lambda h, a, b, c: F["asinh"](a) + F["acosh"](c + 1)),
    "logs": ("log(c) - log2(c + 1)", lambda h, a, b, c: core.s_log(c) - core.s_log2(c + 1)),
    "degrees": ("degrees(a) - rad2deg(b)", lambda h, a, b, c: (a - b) * (180 / np.pi)),
    "plus": ("+a - -b", lambda h, a, b, c: a + b),
    "same": ("a", lambda h, a, b, c: a),
    "constant": ("2 ** 3 / 5", lambda h, a, b, c: 1.6),
    "trunc": ("trunc(a)", None),
    "remainder": ("a % 2.5", None),
    "floor": ("floor(a) + ceil(b)", None),
    "mod": ("a // 2.0", None),
}


def expr(backend, names):
    def fn(h):
        name = h.pick("expr", names)
        # jax computes in single precision here
        tol = dict(rtol=1e-4, atol=1e-4) if backend == "jax" else {}
        gap = 1e-3
        text, ref = EXPRS[name]
        n = 1 if backend == "math" else h.pick("n", (1, 2, 3))
        a, b = h.reals("a", n, -6.0, 6.0), h.reals("b", n, -6.0, 6.0)
        c = h.reals("c", n, 0.5, 8.0)
        used = dict(a=a, b=b, c=c)
        nd = build(h, text, backend, n, **used)
        st = nd.sample_parameters(num_samples=n)
        got = st["E.function_node_result"]
        if n == 1:
            h.scalar(got, "one sample gives a scalar")
        else:
            h.same(h.shape(got), (n,), "one value per sample")
        got = h.flat(got)
        for i in range(n):
            if ref is not None:
                h.close1(got[i], ref(h, a[i], b[i], c[i]), f"{name}: the value of the expression for each sample", **tol)
            elif name == "floor":
                f, g = h.int(f"f{i}", -10, 10), h.int(f"g{i}", -10, 10)
                h.assume(h.And(f + gap <= a[i], a[i] <= f + 1 - gap, g - 1 + gap <= b[i], b[i] <= g - gap))
                h.close1(got[i], f + g, "floor and ceil", **tol)
            elif name == "trunc":
                k = h.int(f"k{i}", -10, 10)
                h.assume(h.Or(h.And(a[i] >= gap, k + gap <= a[i], a[i] <= k + 1 - gap), h.And(a[i] <= -gap, k - 1 + gap <= a[i], a[i] <= k - gap)))
                h.close1(got[i], k, "the part before the point", **tol)
            elif name == "remainder":
                k = h.int(f"k{i}", -10, 10)
                h.assume(h.And(k * 2.5 + gap <= a[i], a[i] <= (k + 1) * 2.5 - gap))
                h.close1(got[i], a[i] - 2.5 * k, "the remainder has the sign of the divisor", **tol)
            else:
                k = h.int(f"k{i}", -10, 10)
                h.assume(h.And(k * 2 + gap <= a[i], a[i] <= (k + 1) * 2 - gap))
                h.close1(got[i], k, "floor division", **tol)
        direct = nd.eval(**{k: (h.arr(v) if n > 1 else v[0]) for k, v in used.items()})
        for i, v in enumerate(h.flat(direct)):
            h.close1(v, got[i], "direct evaluation agrees with sampling", **tol)
        h.cover("end")

    fn.must_cover = ("end",)
    return fn


WHOLE = {
    "~a": lambda a, b: ~a,
    "~a + ~b * 2": lambda a, b: ~a + ~b * 2,
    "a // b": lambda a, b: a // b,
    "a % b": lambda a, b: a % b,
    "a - (a // b) * b": lambda a, b: a % b,
    "a + b": lambda a, b: a + b,
    "-a * 3 - b": lambda a, b: -a * 3 - b,
    "a ** 2 - b ** 2": lambda a, b: a * a - b * b,
    "abs(a) + max(a, b) - min(a, b)": lambda a, b: abs(a) + abs(a - b),
}


def whole(h):
    """Whole numbers stay whole: nothing is rounded, however large they are."""
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode

    backend = h.pick("backend", ("numpy", "math", "jax"))
    big = 2**60 + 3 if backend != "jax" else 1001
    text = h.pick("expr", list(WHOLE))
    for a, b in ((7, 3), (-7, 3), (7, -3), (big, 10), (-big, 7), (0, 5)):
        if "**" in text and abs(a) > 10**9:
            continue
        if backend != "math" and "* 3" in text and abs(a) > 10**9:
            a = a // 3
        nd = BasicMathNode(text, backend=backend, a=a, b=b, node_label="E")
        ref = WHOLE[text](a, b)
        got = nd.sample_parameters()["E.function_node_result"]
        h.same(int(got), ref, f"{text}: a whole number of any size")
        h.same(int(nd.eval(a=a, b=b)), ref, f"{text}: evaluated directly")
        many = BasicMathNode(text, backend=backend, a=a, b=b, node_label="E").sample_parameters(num_samples=2) if backend != "math" else None
        if many is not None:
            h.same([int(x) for x in many["E.function_node_result"]], [ref, ref], f"{text}: for each sample")
    i, j = h.int("i", -50, 50), h.int("j", -50, 50)
    if text == "~a":
        nd = BasicMathNode("~a + b", backend=backend, a=i, b=j, node_label="E")
        h.close1(nd.sample_parameters()["E.function_node_result"], j - i - 1, "the complement of any whole number")
    h.cover("end")


whole.must_cover = ("end",)


def names(h):
    """A variable shadows a constant of the same name; unknown names are refused."""
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode

    backend = h.pick("backend", ("numpy", "math", "jax"))
    v, w = h.real("v", -5, 5), h.real("w", -5, 5)
    nd = BasicMathNode("e * 2 + pi", backend=backend, e=v, pi=w, node_label="E")
    h.close1(nd.sample_parameters()["E.function_node_result"], v * 2 + w, "a given variable takes precedence over a constant", rtol=1e-4, atol=1e-4)
    for bad in REFUSED:
        h.check(h.raises(lambda: BasicMathNode(bad, backend=backend, x=v, y=w), (ValueError, AttributeError, SyntaxError)), f"refused: {bad}")
    h.cover("end")


REFUSED = (
    "__import__('os')", "x.__class__", "x[0]", "lambda: x", "x if y else x", "[x, y]", "{'a': x}", "(x, y)", "x and y", "x < y",
    "print(x)", "eval('x')", "open('f')", "np.sin(x)", "sin(x)(y)", "(y := x)", "f'{x}'", "[i for i in range(3)]", "z + x",
    "sin(*x)", "max(x, key=y)", "x = y", "import os", "globals()", "x @ y", "x << y", "x | y", "del x", "yield x", "await x",
    "not x", "exec('x')", "getattr(x, 'y')", "math.sin(x)",
)  # fmt: skip
names.must_cover = ("end",)


def cases(tier):
    smooth = [k for k in EXPRS]
    return [
        Case("numpy", expr("numpy", smooth), bounds="1..3 samples, 28 expressions over 3 variables in [-6, 6]"),
        Case("math", expr("math", smooth), bounds="1 sample"),
        Case("jax", expr("jax", [k for k in smooth if k not in ("deg",)]), bounds="1..3 samples"),
        Case("whole", whole, bounds="9 expressions over whole numbers up to 2^60, 1..2 samples, every backend"),
        Case("names-and-refusals", names, bounds="34 refused expressions"),
    ]
