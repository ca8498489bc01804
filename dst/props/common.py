import copy

import numpy as np

from .. import drive, gen, models, oracles, refsim
from ..oracles import Violation


def linear_ok(spec):
    """RK45 samples data inside its steps, and reuses the last derivative: only data that no state
    integrates, and rates that no event changes"""
    return not any(i.get("g", 0.0) for i in spec["items"]) and \
        not any(d[1].endswith(".r") for e in spec.get("events", []) for d in e["do"])


def ref_of(spec):
    """reference outcome; Reject if the spec (perhaps cut by the minimiser) is outside its family"""
    sv = spec.get("solver", {})
    if oracles.has_state_events(spec) and (sv.get("method") != "Euler" or sv.get("atol") != 1e-9):
        raise refsim.Reject("crossings are not located closely")
    if sv.get("method") not in ("Euler", "RK45"):
        raise refsim.Reject("method")
    if sv["method"] == "RK45" and not linear_ok(spec):
        raise refsim.Reject("RK45 reuses the last derivative")
    try:
        return refsim.simulate(copy.deepcopy(spec))
    except (KeyError, IndexError, TypeError, ValueError, StopIteration, ZeroDivisionError, AttributeError) as e:
        raise refsim.Reject(f"malformed: {e!r}")


def same_tables(a, b, what, tol=0.0, skip=()):
    """two histories are equal: same rows in the same order, same columns"""
    ta, ca = oracles.table(a)
    tb, cb = oracles.table(b)
    same_data((ta, ca), (tb, cb), what, tol, skip)


def same_data(a, b, what, tol=0.0, skip=(), loose=(), evals=()):
    """loose: columns which are determined in the last row of an evaluation time only"""
    ta, ca = a
    tb, cb = b
    if len(ta) != len(tb):
        raise Violation("rows-differ", f"{what}: {len(ta)} rows at {list(ta)[:40]} against {len(tb)} rows at {list(tb)[:40]}")
    if set(ca) != set(cb):
        raise Violation("columns-differ", f"{what}: {sorted(set(ca) ^ set(cb))}")
    cmp_col("time", ta, tb, what, tol)
    keep = [i for i, t in enumerate(ta) if any(abs(t - e) < 1e-9 * (1 + abs(e)) for e in evals)
            and (i + 1 == len(ta) or ta[i + 1] - t > 1e-9)] if loose else []
    for k in ca:
        if k in loose:
            cmp_col(k, ca[k][keep], cb[k][keep], what, tol, ta[keep])
        elif k not in skip:
            cmp_col(k, ca[k], cb[k], what, tol, ta)


def cmp_col(k, x, y, what, tol, t=None):
    x = np.asarray(x, float)
    y = np.asarray(y, float)
    with np.errstate(invalid="ignore"):
        if tol == 0.0:
            ok = (x == y) | (np.isnan(x) & np.isnan(y))
        else:
            ok = (x == y) | (np.abs(x - y) <= tol * (1 + np.abs(y))) | (np.isnan(x) & np.isnan(y))
    if not ok.all():
        i = int(np.argmin(ok))
        at = "" if t is None else f" (row {i}, t={t[i]!r})"
        raise Violation("values-differ", f"{what}: {k}{at} is {x[i]!r} against {y[i]!r}")


def loose_columns(h):
    """aliases of the variables between whose evaluation times data change"""
    nm = oracles.names(h)
    loose = refsim.loose_vars(h.spec)
    out = {nm[k] for k in loose if k in nm}
    # derivatives of states that integrate them
    for tag, v in loose:
        for s in models.STATES.get(next(i for i in h.spec["items"] if i["tag"] == tag).get("kind", "cell"), {}).values():
            out.add(h.path(f"{tag}.{s}"))
    return out


def step_tolerance(spec):
    """how closely two runs agree that enter and leave the solver's loop at different points: rounding, and the error
    an adaptive method allows itself; Reject where they need not agree"""
    sv = spec.get("solver", {})
    if sv.get("method", "RK45") == "RK45":
        if spec.get("events") or refsim.all_ext(spec):
            raise refsim.Reject("RK45")
        return 1e-2
    if sv["method"] != "Euler":
        raise refsim.Reject("method")
    g = spec["grid"]
    planned = set(refsim.grid_times(g))
    for e in spec.get("events", []):
        if e["type"] == "time":
            planned |= set(refsim.event_times(e, g["t0"], g["t1"]))
    planned = sorted(planned)
    if any(1e-9 < b - a < 2e-3 for a, b in zip(planned, planned[1:])):
        raise refsim.Reject("two instants very close")
    if oracles.has_state_events(spec):
        ref_of(spec)
        return 5e-5
    if "max_step" in sv:
        ref_of(spec)
    return 1e-9


def same_actions(got, want, what, tol):
    """external actions: the same, in the same order, at the same times"""
    if [i for i, _ in got] != [i for i, _ in want]:
        raise Violation("actions-differ", f"{what}: {got[:20]} against {want[:20]}")
    for (i, a), (_, b) in zip(got, want):
        if abs(a - b) > max(tol, 1e-9) * (1 + abs(b)):
            raise Violation("actions-differ", f"{what}: {got[:20]} against {want[:20]}")


def snapshot(h):
    t, c = oracles.table(h)
    return t.copy(), {k: v.copy() for k, v in c.items()}


def ref_probes(ctx, spec, ref):
    ctx.probe("rows", len(ref.rows))
    for t, i, ext, typ in ref.firings:
        ctx.probe(f"fired_{'external' if ext else 'internal'}_{typ}")
    from collections import Counter
    n = Counter(round(t, 9) for t, *_ in ref.firings)
    ctx.probe("instants_with_several_events", sum(1 for v in n.values() if v > 1))
    if spec.get("ext"):
        ctx.probe("ext_" + spec["ext"]["loader"])
    for s in spec.get("subs", []):
        ctx.probe("set" if s.get("set") else "subsystem")
        if s.get("ext"):
            ctx.probe("nested_ext")
    ctx.probe("method_" + spec.get("solver", {}).get("method", "RK45"))
    ctx.probe("hist_" + spec["hist"]["type"])


__all__ = ["step_tolerance", "same_actions", "ref_of", "linear_ok", "same_tables", "loose_columns", "models", "same_data", "cmp_col", "snapshot", "ref_probes", "Violation", "drive", "gen", "oracles",
           "refsim", "copy", "np"]
