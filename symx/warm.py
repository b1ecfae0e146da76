"""Earlier calls: before a call with arrays, the same object is called with other values of the same shapes.

What an evaluation returns may not depend on what was evaluated before, so a stale cache or an input
that was changed in place shows up in the call that is checked."""

import sys

import numpy as np

from . import core as c

CHANGES = ("set", "_set", "add", "_add", "reset", "update", "register", "insert", "write", "save", "plot", "from_", "build", "clear", "append", "remove", "drop", "process", "_process", "load", "_load", "grow", "filter_rows", "_filter")
STATES = ("GraphState", "DependencyGraph")
OUTER = ("evaluate_sed", "evaluate_bandfluxes")


def _array(a):
    return isinstance(a, np.ndarray) and a.ndim >= 1 and a.size > 0


def _other(a, mode):
    """Other values of the same shape."""
    single = mode != "many"
    if mode == "const" and a.dtype.kind in "fO":
        return (np.arange(a.size) + 1.0).reshape(a.shape)
    if a.ndim == 1 and a.shape[0] == 1:
        return a.copy() + 1.0 if single and a.dtype.kind in "fO" else None
    return a[::-1].copy() if a.shape[0] > 1 else a[:, ::-1].copy()


def wrapper(fn, busy, mode):
    def call(self, *args, **kw):
        quiet = busy[0] or kw.get("rng_info") is not None
        if not quiet:
            spots = [("a", i) for i, v in enumerate(args) if _array(v)] + [("k", n) for n, v in kw.items() if _array(v)]
            busy[0] = True
            try:
                for kind, key in spots[:2]:
                    a2, k2 = list(args), dict(kw)
                    for kk, i in spots:
                        v = a2[i] if kk == "a" else k2[i]
                        v = _other(v, mode) if (kk, i) == (kind, key) else v.copy()
                        if v is None:
                            break
                        if kk == "a":
                            a2[i] = v
                        else:
                            k2[i] = v
                    else:
                        try:
                            fn(self, *a2, **k2)
                        except (Exception, c.Unsupported):
                            pass
            finally:
                busy[0] = False
        return fn(self, *args, **kw)

    call.__name__, call.__qualname__, call.__doc__, call.__wrapped__ = fn.__name__, fn.__qualname__, fn.__doc__, fn
    return call


def patches(mode):
    import types

    out, busy, seen = [], [False], set()
    for mname, mod in list(sys.modules.items()):
        if not mname.startswith("lightcurvelynx") or mod is None:
            continue
        for v in list(vars(mod).values()):
            if not isinstance(v, type) or v in seen or not (v.__module__ or "").startswith("lightcurvelynx"):
                continue
            seen.add(v)
            for name in OUTER if mode == "outer" else list(v.__dict__):
                f = v.__dict__.get(name)
                if v.__name__ in STATES or name.startswith(CHANGES) or (name.startswith("__") and name != "__call__"):
                    continue
                if isinstance(f, types.FunctionType) and not getattr(f, "__isabstractmethod__", False):
                    out.append((v, name, wrapper(f, busy, mode)))
    return out
