"""P05: time events run exactly once, at their time"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=900, thorough=60000)
RULE = ("One scenario is a generated system with time-stamped and periodic events on every kind of host, run to the end "
        "in one go; it is non-trivial if at least one time event was due.")
F = dict(max_time=7, min_time=1, max_state=0, external=0.4, only_book=True, kinds=["cell", "cell", "static", "scell"],
         max_items=3, ext=0.3, maps=0.1, nasty_grid=0.3)
BOOK = ("n", "m", "tl")


def make(rng, tier):
    spec, ref = gen.gen_ref_spec(rng, F, want=lambda s, r: len(r.firings) > 0)
    return dict(spec=spec)


def run(sc, ctx):
    spec = sc["spec"]
    ref = ref_of(spec)
    w, h = drive.one(spec, ctx)
    drive.solve(h)
    ctx.take(w)
    ref_probes(ctx, spec, ref)
    ctx.nontrivial = len(ref.firings) > 0
    oracles.check_firings(h, ref)
    oracles.check_eval_values(h, ref, columns={k for k in oracles.names(h) if k[1] in BOOK})
