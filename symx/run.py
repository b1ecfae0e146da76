"""Run the cases of one property: explore, replay, report, write the evidence."""

import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import pkgutil
import sys
import time
import traceback
import warnings

import numpy as np

from . import core as c
from . import harness as H
from . import patch as P
from . import warm as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Case:
    """One bounded harness of a property."""

    def __init__(self, name, fn, *, tier="quick", max_paths=4000, time_limit=240, bounds="", patches=None, known=None, query_ms=8000, random=False, witnesses=40, warm=None):
        self.name = name
        self.fn = fn
        self.tier = tier
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.bounds = bounds
        self.patches = patches
        self.query_ms = query_ms
        self.random = random
        self.warm = (not random) if warm is None else warm
        self.witnesses = witnesses


def _quiet():
    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------------------
# exploration (in a forked child)


class Coverage:
    """Which functions of the package were executed."""

    def __init__(self):
        self.seen = set()
        self.tool = 4

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.tool, "symx")
        except ValueError:
            return

        def on(code, _off):
            if "lightcurvelynx" in code.co_filename and code.co_name not in ("<module>", "<listcomp>", "<genexpr>"):
                rel = code.co_filename.split("lightcurvelynx/", 1)[-1]
                self.seen.add(f"{rel}:{code.co_qualname}")
            return m.DISABLE

        m.register_callback(self.tool, m.events.PY_START, on)
        m.set_events(self.tool, m.events.PY_START)

    def stop(self):
        m = sys.monitoring
        try:
            m.set_events(self.tool, 0)
            m.free_tool_id(self.tool)
        except ValueError:
            pass


def explore(case, seed, tier):
    """Symbolic exploration of one case; returns a plain dict."""
    _quiet()
    cov = Coverage()
    x = c.Explorer(case.max_paths, case.time_limit, case.query_ms, seed)
    x.undecided = []
    res = {"case": case.name, "witnesses": [], "candidates": [], "errors": [], "covered": {}, "samples": []}
    rng = np.random.default_rng(seed)
    n_anon = [0]
    cur = {"h": None}

    def factory(seed_=None, _global=False, **k):
        if not isinstance(seed_, (int, type(None))) and hasattr(seed_, "random"):
            return seed_
        n_anon[0] += 1
        g = H.ScriptedRNG(cur["h"], f"own{n_anon[0]}")
        g.seed = seed_ if seed_ is not None else k.get("seed")
        cur["h"].own.append(g)
        return g

    pat = P.Patcher(H.RandomShim(factory) if case.random else None)
    extra = case.patches(True) if case.patches else ()
    pat.apply(extra)
    if case.warm:
        for mod, name, val in W.patches(case.warm):
            pat.set(mod, name, val)
    cov.start()
    labels = {}
    try:
        while x.worklist:
            if x.stats.paths >= x.max_paths:
                x.truncated = True
                break
            prefix = x.worklist.pop()
            x.begin(prefix)
            x.ex_cov = []
            n_anon[0] = 0
            h = cur["h"] = H.SymH(x, {"tier": tier})
            h.own = []
            fail = None
            try:
                x._budget()
                case.fn(h)
            except c.PathAbort:
                x.stats.aborted += 1
                continue
            except c.PathLimit:
                x.truncated = True
                break
            except c.PropertyFailed as e:
                fail = (e.label, e.model[0])
            except c.Unsupported as e:
                res["errors"].append(f"{e} @ {_where(e)}")
                fail = ("<unsupported>", [])
            except RecursionError as e:
                res["errors"].append(f"recursion @ {_where(e)}")
                fail = ("<unsupported>", [])
            except Exception as e:
                fail = (f"raised {type(e).__name__}: {str(e)[:120]} @ {_where(e)}", [])
            x.stats.paths += 1
            for lab in x.covered:
                res["covered"][lab] = res["covered"].get(lab, 0) + 1
            try:
                if fail is not None:
                    lab = fail[0].split("[")[0]
                    labels[lab] = labels.get(lab, 0) + 1
                    if labels[lab] <= 3:
                        models = []
                        r, m = x.sat(*fail[1], want_model=True)
                        if r == "sat":
                            models.append(x.input_values(m))
                            for _ in range(4):
                                r2, m2 = x.nice_model(fail[1], rng)
                                if r2 == "sat":
                                    models.append(x.input_values(m2))
                            res["candidates"].append({"label": fail[0], "models": models})
                        elif fail[0] != "<unsupported>" and r == "unsat":
                            pass  # the path itself is infeasible
                        else:
                            res["errors"].append(f"no model for {fail[0]}")
                    if sum(labels.values()) >= 12 and x.stats.paths > 12:
                        x.truncated = True
                        break
                elif len(res["witnesses"]) < case.witnesses or rng.random() < 0.02 and len(res["witnesses"]) < 3 * case.witnesses:
                    r, m = x.nice_model((), rng)
                    if r == "sat":
                        res["witnesses"].append(x.input_values(m))
            except c.Unsupported as e:
                res["errors"].append(str(e))
    finally:
        cov.stop()
        pat.restore()
    res["stats"] = x.stats.as_dict()
    res["undecided"] = x.undecided[:20]
    res["truncated"] = x.truncated
    res["functions"] = sorted(cov.seen)
    res["time"] = round(time.time() - x.t_start, 2)
    return res


def _where(e):
    tb = e.__traceback__
    last = None
    own = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        last = f"{os.path.basename(fn)}:{tb.tb_lineno}"
        if "lightcurvelynx" in fn:
            own = last
        tb = tb.tb_next
    return own or last or "?"


# ---------------------------------------------------------------------------
# replay (in a forked child, nothing of the code under test is patched except scripted RNGs)


def replay(case, values_list, tier="quick"):
    """[(status, label, detail)] with status ok / fail / skip / error per input."""
    _quiet()
    out = []
    pat = None
    cur = {"h": None}
    n_anon = [0]
    if case.random:

        def factory(seed_=None, _global=False, **k):
            if not isinstance(seed_, (int, type(None))) and hasattr(seed_, "random"):
                return seed_
            n_anon[0] += 1
            g = H.ScriptedRNG(cur["h"], f"own{n_anon[0]}")
            g.seed = seed_ if seed_ is not None else k.get("seed")
            cur["h"].own.append(g)
            return g

        shim = H.RandomShim(factory)
        from .arrays import NpShim

        class _N(NpShim):
            def __getattr__(self, n):
                return shim if n == "random" else getattr(np, n)

        pat = P.Patcher(None)
        for mname, mod in list(sys.modules.items()):
            if mname.startswith(P.PKG) and mod is not None and vars(mod).get("np") is np:
                pat.set(mod, "np", _N(np))
    for mod, name, val in case.patches(False) if case.patches else ():
        pat = pat or P.Patcher(None)
        pat.set(mod, name, val)
    if case.warm:
        pat = pat or P.Patcher(None)
        for mod, name, val in W.patches(case.warm):
            pat.set(mod, name, val)
    for vals in values_list:
        h = cur["h"] = H.ConcH(vals, {"tier": tier})
        h.own = []
        n_anon[0] = 0
        try:
            case.fn(h)
            out.append(("ok", "", "", h.covered))
        except H.Skip:
            out.append(("skip", "", "", []))
        except H.ReplayFailed as e:
            out.append(("fail", e.label, e.detail, h.covered))
        except c.Unsupported as e:
            out.append(("error", "unsupported", str(e), []))
        except Exception as e:
            out.append(("fail", f"raised {type(e).__name__}", f"{str(e)[:200]} @ {_where(e)}", h.covered))
    if pat:
        pat.restore()
    return out


def _child(conn, fn, args):
    try:
        sys.stdout = open(os.devnull, "w")
        r = ("ok", fn(*args))
    except BaseException as e:
        r = ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    try:
        conn.send(r)
    except BaseException as e:
        conn.send(("err", f"send: {e}"))
    conn.close()
    os._exit(0)


class Pool:
    """Forked children with a time limit each."""

    def __init__(self, workers):
        self.workers = workers
        self.ctx = mp.get_context("fork")

    def map(self, jobs):
        """jobs: [(key, fn, args, limit_s)] -> {key: ('ok', value) | ('err', text)}"""
        out, running, queue = {}, [], list(jobs)
        while queue or running:
            while queue and len(running) < self.workers:
                key, fn, args, limit = queue.pop(0)
                a, b = self.ctx.Pipe(False)
                p = self.ctx.Process(target=_child, args=(b, fn, args))
                p.start()
                b.close()
                running.append((key, p, a, time.time() + limit))
            done = []
            mp.connection.wait([r[2] for r in running], timeout=0.2)
            for r in running:
                key, p, a, deadline = r
                if a.poll():
                    try:
                        out[key] = a.recv()
                    except EOFError:
                        out[key] = ("err", "child ended without a result")
                    p.join(10)
                    if p.is_alive():
                        p.kill()
                    done.append(r)
                elif time.time() > deadline:
                    p.kill()
                    p.join()
                    out[key] = ("err", "time limit")
                    done.append(r)
                elif not p.is_alive() and not a.poll():
                    out[key] = ("err", f"child died ({p.exitcode})")
                    done.append(r)
            for r in done:
                running.remove(r)
                r[2].close()
        return out


def import_package():
    """Import every module of the package that can be imported here."""
    _quiet()
    import lightcurvelynx

    for m in pkgutil.walk_packages(lightcurvelynx.__path__, "lightcurvelynx."):
        if any(s in m.name for s in ("example_runs", "_version")):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            if os.environ.get("SYMX_DEBUG"):
                print("not imported:", m.name)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        return json.load(open(path))
    return []


def known_match(known, prop, case, label):
    for k in known:
        if k["property"] == prop and k.get("status", "known") == "known" and k["case"] == case and label.startswith(k["label"]):
            return k
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when anything is inconclusive")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("SYMX_WORKERS", "8")))
    a = ap.parse_args(argv)
    t0 = time.time()
    sys.setrecursionlimit(5000)
    import_package()
    mod = importlib.import_module(f"props.{a.property.lower()}")
    cases = [k for k in mod.cases(a.tier) if a.case is None or k.name == a.case]
    if a.replay:
        return do_replay(a, mod)
    prop = a.property
    total_limit = 800 if a.tier == "quick" else 3000
    pool = Pool(a.workers)
    jobs = [(k.name, explore, (k, a.seed, a.tier), min(k.time_limit * 2 + 120, total_limit)) for k in cases]
    results = pool.map(jobs)
    by_name = {k.name: k for k in cases}

    # replays on the real code
    rjobs = []
    for name, (st, r) in results.items():
        if st != "ok":
            continue
        k = by_name[name]
        for i, cand in enumerate(r["candidates"]):
            rjobs.append(((name, "cand", i), replay, (k, cand["models"], a.tier), 120))
        if r["witnesses"]:
            rjobs.append(((name, "wit", 0), replay, (k, r["witnesses"], a.tier), 240))
    rres = pool.map(rjobs)

    known = load_known()
    violations, known_hits, inconclusive, notes = [], {}, [], []
    tot = {f: 0 for f in c.Stats.FIELDS}
    solver_s = 0.0
    functions = set()
    replayed = skipped = 0
    samples = []
    covered = {}
    per_case = []
    undecided_cases = []
    for k in cases:
        st, r = results[k.name]
        if st != "ok":
            inconclusive.append(f"{k.name}: {r}")
            continue
        for f in c.Stats.FIELDS:
            tot[f] += r["stats"][f]
        solver_s += r["stats"]["solver_s"]
        functions |= set(r["functions"])
        for lab, n in r["covered"].items():
            covered[f"{k.name}/{lab}"] = n
        case_viol = False
        for i, cand in enumerate(r["candidates"]):
            s2, rr = rres.get((k.name, "cand", i), ("err", "no replay"))
            hit = None
            if s2 == "ok":
                for vals, o in zip(cand["models"], rr):
                    if o[0] == "fail":
                        hit = (vals, o)
                        break
            if hit:
                case_viol = True
                note_violation(prop, k, a, hit[0], hit[1][1], hit[1][2], known, violations, known_hits)
            elif cand["label"] != "<unsupported>":
                inconclusive.append(
                    f"{k.name}: counterexample for '{cand['label']}' did not reproduce ({[o[0] + ' ' + str(o[1:3]) for o in rr] if s2 == 'ok' else rr}) models {json.dumps(cand['models'][:1], default=str)[:600]}"
                )
        s2, rr = rres.get((k.name, "wit", 0), ("ok", []))
        if s2 != "ok":
            inconclusive.append(f"{k.name}: witness replay: {rr}")
            rr = []
        nok = 0
        for vals, o in zip(r["witnesses"], rr):
            if o[0] == "ok":
                nok += 1
                replayed += 1
                if len(samples) < 12 and nok <= 1:
                    samples.append({"case": k.name, "inputs": {q: (round(v, 6) if isinstance(v, float) else v) for q, v in list(vals.items())[:14]}})
            elif o[0] == "skip":
                skipped += 1
            elif o[0] == "fail":
                case_viol = True
                note_violation(prop, k, a, vals, o[1], o[2] + " (path witness)", known, violations, known_hits)
            else:
                inconclusive.append(f"{k.name}: witness replay error {o[1:3]}")
        if r["errors"]:
            undecided_cases.append(f"{k.name}: {len(r['errors'])} paths not encoded ({r['errors'][0]})")
        if r["undecided"]:
            undecided_cases.append(f"{k.name}: undecided obligations {r['undecided'][:3]}")
        if r["truncated"]:
            notes.append(f"{k.name}: exploration cut short at {r['stats']['paths']} paths")
        ok_paths = r["stats"]["discharged"]
        if ok_paths == 0 and not case_viol:
            inconclusive.append(f"{k.name}: nothing decided; errors {r['errors'][:2]}, {r['stats']}")
        need = getattr(k.fn, "must_cover", ())
        for lab in need:
            if lab not in r["covered"] and not case_viol and not r["errors"]:
                inconclusive.append(f"{k.name}: vacuous, '{lab}' never reached")
        per_case.append(
            {"case": k.name, "bounds": k.bounds, "exhausted": not r["truncated"] and not r["errors"], "seconds": r["time"], "witnesses_replayed": nok, **{f: r["stats"][f] for f in ("paths", "branches", "queries", "obligations", "discharged", "undecided")}}
        )
        if a.v:
            print(json.dumps(per_case[-1]), flush=True)

    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    meta = getattr(mod, "META", {})
    ev = {
        "property": prop,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": replayed,
            "samples": samples or [{"note": "no witness"}],
            "exhaustive": all(p["exhausted"] for p in per_case) and len(per_case) == len(cases),
            "queries": tot["queries"],
            "obligations_checked": tot["obligations"],
            "obligations_discharged": tot["discharged"],
            "discharged_by_normalisation": tot["trivial"],
            "obligations_undecided": tot["undecided"],
            "solver_seconds": round(solver_s, 2),
            "paths_cut_by_assumptions": tot["aborted"],
            "functions_encoded": sorted(functions),
            "reached": covered,
            "cases": per_case,
            "not_encoded": undecided_cases,
            "inconclusive": [str(i)[:400] for i in inconclusive],
            "notes": notes,
            "explanation": "states = symbolic paths of the real code explored to the end; transitions = branches put to the solver; "
            "traces_validated = path witnesses (solver models) replayed on the unpatched code, where the property held too",
        },
        "assumptions": list(COMMON_ASSUMPTIONS) + list(meta.get("assumptions", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        f"{prop} [{a.tier}]: {tot['paths']} paths, {tot['branches']} branches, {tot['queries']} queries, "
        f"{tot['discharged']}/{tot['obligations']} obligations discharged, {replayed} witnesses replayed ({skipped} skipped), "
        f"solver {solver_s:.1f}s, wall {wall:.1f}s"
    )
    for n in notes:
        print("BOUND:", n)
    for n in undecided_cases:
        print("UNDECIDED:", n)
    for key, txt in known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {txt}")
    for n in inconclusive:
        print("INCONCLUSIVE:", n)
    if violations:
        seen = set()
        for label, path, detail in violations:
            if label in seen:
                continue
            seen.add(label)
            print(f"  {label}: {detail}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if inconclusive and (a.strict or not any(p["discharged"] for p in per_case)):
        return 2
    return 0


COMMON_ASSUMPTIONS = (
    "arithmetic is over the reals: rounding of floating-point operations is outside the claim (tolerance 1e-6 relative)",
    "float constants are read as decimals of 13 significant digits; arguments of transcendental functions are compared after rounding coefficients to 11 digits",
    "transcendental functions are uninterpreted apart from monotonicity, sign, range and inverse facts; counterexamples are replayed on the real code",
    "numpy functions are interpreted by symx/arrays.py (validated by replaying a solver-made witness of the explored paths on the unpatched code)",
)


def note_violation(prop, k, a, vals, label, detail, known, violations, known_hits):
    kf = known_match(known, prop, k.name, label)
    if kf is not None:
        known_hits[kf["id"]] = kf["what"]
        return
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{k.name}-{len(violations)}.json".replace("/", "_"))
    with open(path, "w") as f:
        json.dump({"property": prop, "case": k.name, "tier": a.tier, "label": label, "detail": detail, "inputs": vals}, f, indent=1)
    violations.append((f"{k.name}: {label}", path, f"{detail} inputs={json.dumps(vals)[:400]}"))


def do_replay(a, mod):
    d = json.load(open(a.replay))
    k = next(k for k in mod.cases(d.get("tier", "quick")) if k.name == d["case"])
    r = replay(k, [d["inputs"]])[0]
    print(r)
    if r[0] == "fail":
        print(f"VIOLATION property={d['property']} replay={a.replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
