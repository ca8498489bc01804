"""P11: each row of the history is one consistent state of the system"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("One scenario is a generated system of any dynamics, run by any solver method in one go or by steps, with data and "
        "events; it is non-trivial if it recorded rows for events, or values that the equations compute from changing "
        "values.")
F = dict(max_time=4, max_state=3, external=0.3, decay=0.5, g=0.5, maps=0.6, subs=0.5, sets=0.25, max_items=5,
         kinds=["cell", "cell", "pair", "static", "total", "total", "scell", "branch"], ext=0.5, pair_cond=True,
         methods=["Euler", "RK45"], hist_sizes=[0, 0, 1, 2, 3, 8])


def make(rng, tier):
    spec = gen.gen_spec(rng, F)
    # what state events do to other systems than these is for P06: here, they take place, and the rows are looked at
    keep = []
    for e in spec["events"]:
        if e["type"] == "state":
            e["do"] = [d for d in e["do"] if d[1].split(".")[1] in ("n", "m", "tl")]
            if not e["do"] or clocked(spec, e):
                continue
        keep.append(e)
    spec["events"] = keep
    if oracles.has_state_events(spec):
        spec["solver"]["method"] = "Euler"      # (the event search of the others may not end)
    if rng.random() < 0.5 or any(i["kind"] == "pair" or i.get("d") or i.get("g") for i in spec["items"]):
        spec["solver"].pop("atol", None)
        spec["solver"].pop("rtol", None)
    if rng.random() < 0.3:
        spec["globals"] = [["gq", 2.0]]
    return dict(spec=spec, steps=rng.random() < 0.25)


def clocked(spec, e):
    """the condition depends on the time itself, or on data"""
    seeds = {(i["tag"], "z") for i in spec["items"] if i.get("kind", "cell") == "cell" and i.get("c", 0.0) != 0.0}
    seeds |= {tuple(k.split(".")) for k in refsim.all_ext(spec)}
    return tuple(e["cond"][0].split(".")) in refsim.influences(spec, seeds)


def near(a, b, scale):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + scale)


def run(sc, ctx):
    spec = sc["spec"]
    g = spec["grid"]
    for i in spec["items"]:
        if i.get("kind", "cell") not in models.KINDS:
            raise refsim.Reject("malformed")
    lim = refsim.all_ext(spec)
    if any(not (ts and ts[0] <= g["t0"] and ts[-1] >= g["t1"]) for ts, _, _ in lim.values()):
        raise refsim.Reject("data do not cover the run")
    if oracles.has_state_events(spec) and spec.get("solver", {}).get("method") != "Euler":
        raise refsim.Reject("method")
    for e in spec.get("events", []):
        if e["type"] == "state" and (clocked(spec, e) or any(d[1].split(".")[1] not in ("n", "m", "tl")
                                                             for d in e["do"])):
            raise refsim.Reject("condition on the time")     # KF1
    w, h = drive.one(spec, ctx, budget=20000)
    drive.build(h)
    grid = refsim.grid_times(g)
    try:
        if sc.get("steps"):
            for a, b in zip(grid, grid[1:]):
                drive.step(h, a, b)
            drive.finish(h)
        else:
            drive.solve(h, rebuild=False)
    except drive.StepBudget:
        # a condition kept on its level by its own actions: the rows up to here are looked at
        h.model.create_historian_df()
        ctx.probe("broken_off")
    ctx.take(w)
    t, cols = oracles.table(h)
    n = len(t)
    ctx.probe("rows", n)
    ctx.probe("event_rows", max(0, n - g["n"] - 1))
    ctx.probe("method_" + spec["solver"].get("method", "RK45"))
    check(spec, h, t, cols, ctx)


def check(spec, h, t, cols, ctx):
    n = len(t)
    for a, b in zip(t, t[1:]):
        if b < a - 1e-5 * (1 + abs(a)):
            raise Violation("row-order", f"a row at {b!r} after one at {a!r}")
    dest = {d: [s] for d, s in spec.get("maps", [])}
    dest.update({d: ss for d, ss in spec.get("sums", [])})
    ext = refsim.all_ext(spec)
    for d, ss in dest.items():
        if d in ext:
            continue
        for i in range(n):
            vals = [cols[h.path(s)][i] for s in ss]
            want = sum(vals)
            got = cols[h.path(d)][i]
            if not near(got, want, max(abs(x) for x in vals)):
                raise Violation("row-mapping", f"row {i} (t={t[i]!r}): {d} is {got!r}, its sources {ss} are {vals}")
    for it in spec["items"]:
        kind = it.get("kind", "cell")
        c = {v: cols[h.path(f"{it['tag']}.{v}")] for v in models.VARS[kind]}
        dots = {s: cols.get(h.path(f"{it['tag']}.{d}")) for s, d in models.STATES[kind].items()}
        for i in range(n):
            v = {k: float(x[i]) for k, x in c.items()}
            if not all(np.isfinite(x) for x in v.values()):
                continue
            w = dict(v)
            with np.errstate(all="ignore"):
                models.evaluate(kind, w, float(t[i]))
                der = models.derivative(kind, v)
            scale = scale_of(kind, v)
            for k in models.DERIVED[kind]:
                if not near(v[k], w[k], scale):
                    raise Violation("row-equation", f"row {i} (t={t[i]!r}) of {it['tag']} ({kind}): {k} is {v[k]!r}, its equation "
                                    f"gives {w[k]!r} for {v}")
                ctx.nontrivial |= i > 0 and v[k] != c[k][i - 1]
            for s, col in dots.items():
                if col is not None and np.isfinite(col[i]) and not near(col[i], der[s], scale):
                    raise Violation("row-derivative", f"row {i} (t={t[i]!r}) of {it['tag']} ({kind}): the derivative of {s} is "
                                    f"{col[i]!r}, its equation gives {der[s]!r} for {v}")


def scale_of(kind, v):
    m = max(abs(x) for x in v.values())
    return m * m + 1000.0 * abs(v.get("m", 0.0))
