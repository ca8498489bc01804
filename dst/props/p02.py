"""P02: which rows a run records"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("One scenario is a generated system with data, events and a buffer size, run by one solver method; it is "
        "non-trivial if rows other than the plain output grid were due, the buffer was flushed or data were loaded "
        "during the run.")
F = dict(max_time=4, max_state=1, external=0.25, hist_sizes=[0, 1, 2, 3, 5, 8, 40], nasty_grid=0.4)
SMOOTH = dict(max_time=3, max_state=0, external=0.0, decay=0.6, kinds=["cell", "pair", "static", "scell", "branch"],
              ext=0.25, maps=0.2)


def make(rng, tier):
    if rng.random() < 0.35:
        # other solver methods, dynamics without closed form: the times of the rows are still determined
        f = dict(SMOOTH, methods=["RK45", "Euler"])
        spec = gen.gen_spec(rng, f)
        expected(spec)
        return dict(spec=spec, smooth=True)
    return dict(spec=gen.gen_ref_spec(rng, F)[0])


def expected(spec):
    """times of rows of a run without state events, in order"""
    g = spec["grid"]
    evals = refsim.grid_times(g)
    t0, t1 = g["t0"], g["t1"]
    ext, inn = [], []
    for e in spec.get("events", []):
        if e["type"] != "time":
            raise refsim.Reject("state event")
        (ext if e.get("external") else inn).extend(refsim.event_times(e, t0, t1))
    all_t = sorted(set(evals) | set(ext) | set(inn))
    for a, b in zip(all_t, all_t[1:]):
        if 1e-9 < b - a < 2e-3:
            raise refsim.Reject("two instants very close")
    if spec["solver"].get("method") == "BDF":
        raise refsim.Reject("the solver's BDF fails on a vanishing Newton correction")
    times = [(t, "eval") for t in evals]
    for t in sorted(set(round(x, 9) for x in inn)):
        if not any(abs(t - x) < 1e-8 for x in ext):
            times.append((t, "event"))
    times.sort(key=lambda x: (round(x[0], 8), x[1] == "eval"))
    if times[0][1] == "event" and abs(times[0][0] - t0) < 1e-8:
        # the first row is written before anything else
        k = next(i for i, x in enumerate(times) if x[1] == "eval")
        times.insert(0, times.pop(k))
    return times


def run(sc, ctx):
    spec = sc["spec"]
    if sc.get("smooth"):
        exp = expected(spec)
        tt = 1e-9
    else:
        ref = ref_of(spec)
        exp = [(r.t, r.kind) for r in ref.rows]
        tt = oracles.tolerances(spec)[0]
        ref_probes(ctx, spec, ref)
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    times, _ = oracles.table(h)
    ctx.probe("flushes", len(h.stores))
    ctx.probe("loads_during_run", max(0, len(h.loads) - 1))
    ctx.probe("method_" + spec.get("solver", {}).get("method", "RK45"))
    ctx.nontrivial = len(exp) > spec["grid"]["n"] + 1 or len(h.stores) > 1 or len(h.loads) > 1
    if len(times) != len(exp):
        raise Violation("row-count", f"{len(times)} rows recorded at {list(times)}, expected {len(exp)} at {exp}")
    for i, (t, kind) in enumerate(exp):
        # (an adaptive solver may end a step just before an event, and takes that for its time)
        early = 1.1e-3 if sc.get("smooth") and kind == "event" else 0.0
        if abs(times[i] - t) > tt * (1 + abs(t)) and not 0 <= t - times[i] <= early:
            raise Violation("row-time", f"row {i} is at {times[i]!r}, expected {kind} row at {t!r}")
    if h.spec["hist"]["type"] == "mem" and sum(h.stores) != len(times):
        raise Violation("rows-handed", f"{sum(h.stores)} rows handed to the historian, {len(times)} in the history")
