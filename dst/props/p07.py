"""P07: what an event action changes"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a generated system, its data and its events of all hosts and kinds, run to the end with a "
        "generated buffer size; it is non-trivial if at least one event fired.")
F = dict(max_time=6, min_time=1, max_state=1, external=0.35, max_items=4)


def make(rng, tier):
    spec, ref = gen.gen_ref_spec(rng, F, want=lambda s, r: len(r.firings) > 0)
    return dict(spec=spec)


def run(sc, ctx):
    spec = sc["spec"]
    ref = ref_of(spec)
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    ref_probes(ctx, spec, ref)
    ctx.nontrivial = len(ref.firings) > 0
    oracles.check_rows_against(h, ref)
