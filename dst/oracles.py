"""Checks over the recorded history of a run."""
import math

import numpy as np

from . import models, refsim


class Violation(Exception):
    """`cls` identifies the kind of violation (kept while minimising)"""

    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = str(detail)


def table(h):
    """history of a simulation as (times, {alias: column})"""
    cols, data = h.history()
    if not cols:
        return np.zeros(0), {}
    return data[:, 0], {c: data[:, i] for i, c in enumerate(cols) if i}


def names(h):
    """(tag, var) -> alias"""
    out = {}
    for s in h.spec["items"]:
        for v in models.VARS[s.get("kind", "cell")]:
            out[(s["tag"], v)] = h.path(f"{s['tag']}.{v}")
    return out


def has_state_events(spec):
    return any(e["type"] == "state" for e in spec.get("events", []))


def close(a, b, tol):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * (1.0 + abs(b))


def tolerances(spec):
    """(time, value): recorded instants are exact unless the solver has to
    locate a crossing"""
    if has_state_events(spec):
        return 1e-5, 2e-4
    return 1e-9, 1e-7


def check_rows_against(h, ref, spec=None, columns=None, rows=True):
    """the recorded history is the one of the reference: same rows in the same
    order, same values.  `columns`: restrict to these (tag, var)."""
    spec = spec or h.spec
    tt, tv = tolerances(spec)
    times, cols = table(h)
    nm = names(h)
    exp = ref.rows
    if len(times) != len(exp):
        raise Violation("row-count", f"{len(times)} rows recorded at {list(times)}, "
                        f"expected {len(exp)} at {[(r.t, r.kind) for r in exp]}")
    for i, r in enumerate(exp):
        if abs(times[i] - r.t) > tt * (1 + abs(r.t)):
            raise Violation("row-time", f"row {i} is at {times[i]!r}, expected {r.kind} row at {r.t!r}")
    for i, r in enumerate(exp):
        check_values(cols, nm, i, r, tv, columns)


def check_values(cols, nm, i, r, tv, columns=None):
    for key, alias in nm.items():
        if key in r.loose or (columns is not None and key not in columns):
            continue
        if alias not in cols:
            raise Violation("missing-column", alias)
        got = cols[alias][i]
        tol = 2e-3 if key[1] in ("tl", "nn") and tv > 1e-6 else tv
        if not close(got, r.v[key], tol):
            raise Violation("row-value", f"{alias} is {got!r} at {r.kind} row t={r.t!r}, expected {r.v[key]!r}")


def check_eval_values(h, ref, columns=None, spec=None):
    """values at the evaluation times only (the last row recorded for each)"""
    spec = spec or h.spec
    tt, tv = tolerances(spec)
    times, cols = table(h)
    nm = names(h)
    for r in ref.rows:
        if r.kind not in ("init", "eval"):
            continue
        near = [k for k, t in enumerate(times) if abs(t - r.t) <= 1e-8 * (1 + abs(r.t))]
        if not near:
            raise Violation("eval-time-missing", f"nothing recorded for evaluation time {r.t!r}; rows at {list(times)}")
        # the row of the start is the first one, an output row the last one of its time
        check_values(cols, nm, near[0] if r.kind == "init" else near[-1], r, tv, columns)


def check_firings(h, ref, spec=None):
    """external actions: each once at its time, in an order of the reference"""
    spec = spec or h.spec
    st = has_state_events(spec)
    exp = [(t, i) for t, i, ext, typ in ref.firings if ext]
    got = [(t, i) for i, t in h.actions]
    if sorted(i for _, i in exp) != sorted(i for _, i in got):
        raise Violation("firing-count", f"external actions ran {got}, expected {exp}")
    for i in set(i for _, i in exp):
        a = [t for t, j in got if j == i]
        b = [t for t, j in exp if j == i]
        for x, y in zip(a, b):
            if abs(x - y) > (1e-5 if st else 1e-8) * (1 + abs(y)):
                raise Violation("firing-time", f"event {i} ran at {a}, expected {b}")
    if any(y < x - 1e-9 for (x, _), (y, _) in zip(got, got[1:])):
        raise Violation("firing-order", f"external actions ran at {got}")
