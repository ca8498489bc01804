"""P06: state events"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("One scenario is a generated system with one or two state events (and time events and data), integrated by the "
        "solver's event search; it is non-trivial if at least one level was crossed in the direction of its event.")
F = dict(min_state=1, max_state=3, max_time=2, external=0.3, need_state=True, kinds=["cell", "cell", "scell", "total",
                                                                                   "static"], max_items=3, ext=0.25)


def make(rng, tier):
    spec, ref = gen.gen_ref_spec(rng, F, tries=400, want=lambda s, r: r.crossings > 0 or rng.random() < 0.03)
    return dict(spec=spec)


def run(sc, ctx):
    spec = sc["spec"]
    if sc.get("exact"):
        return fixed(sc, ctx)
    ref = ref_of(spec)
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    ref_probes(ctx, spec, ref)
    ctx.nontrivial = ref.crossings > 0
    ctx.probe("crossings", ref.crossings)
    oracles.check_firings(h, ref)
    # instants at which a crossing was handled
    times, _ = oracles.table(h)
    exp = [r.t for r in ref.rows if r.kind == "state"]
    for t in exp:
        near = [x for x in times if abs(x - t) <= 1e-5 * (1 + abs(t))]
        if len(near) != 1:
            raise Violation("crossing-rows", f"{len(near)} rows for the crossing at {t!r}; rows at {list(times)}")
    oracles.check_eval_values(h, ref)


def fixed(sc, ctx):
    """a written-down history with its expected number of runs of each action"""
    spec = sc["spec"]
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    ctx.nontrivial = True
    t, c = oracles.table(h)
    for name, val in sc["exact"]:
        got = c[h.path(name)][-1]
        if abs(got - val) > 1e-6:
            raise Violation("crossing-count:" + sc["label"], f"{name} is {got!r} at the end, expected {val!r}")
