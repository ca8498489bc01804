"""P03: external data values"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("One scenario is a system fed from one or more data files through a CSV, in-memory or user-written windowed "
        "loader with generated chunk size, column order, time unit and first row, with events that cut the steps; it is "
        "non-trivial if a variable is mapped to data that change during the run.")
F = dict(ext=1.0, max_time=3, max_state=0, external=0.3, max_items=4, g=0.4, kinds=["cell", "cell", "static", "static",
                                                                                  "branch", "total", "scell"],
         methods=["Euler", "Euler", "Euler", "RK45"], subs=0.5)


def wanted(s, r):
    return bool(refsim.all_ext(s))


def make(rng, tier):
    for _ in range(40):
        spec, ref = gen.gen_ref_spec(rng, F, want=wanted)
        if spec["solver"]["method"] == "RK45" and not linear_ok(spec):
            continue
        return dict(spec=spec)
    raise refsim.Reject("no scenario")


def run(sc, ctx):
    spec = sc["spec"]
    ref = ref_of(spec)
    ext = refsim.all_ext(spec)
    if not ext:
        raise refsim.Reject("no data")
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    ref_probes(ctx, spec, ref)
    ctx.probe("loads_during_run", max(0, len(h.loads) - 1))
    t0, t1 = spec["grid"]["t0"], spec["grid"]["t1"]
    ctx.nontrivial = any(len(set(v for t, v in zip(ts, vs) if t0 <= t <= t1)) > 1 for ts, vs, k in ext.values())
    cols = refsim.influences(spec, {tuple(k.split(".")) for k in ext})
    oracles.check_eval_values(h, ref, columns=cols)
    # rows of events too, where the value is determined
    if len(oracles.table(h)[0]) == len(ref.rows):
        nm = oracles.names(h)
        tt, tv = oracles.tolerances(spec)
        times, c = oracles.table(h)
        for i, r in enumerate(ref.rows):
            if abs(times[i] - r.t) < 1e-8 * (1 + abs(r.t)):
                oracles.check_values(c, nm, i, r, tv, cols)
