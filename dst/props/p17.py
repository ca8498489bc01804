"""P17: an error in a function of the user ends the run there, and reaches the caller as it is"""
from .common import *

LEVEL = "fault_enumeration"
RUNS = dict(quick=800, thorough=40000)
RULE = ("One scenario is a run, at once or step by step, during which one call of a function of the user (post-step "
        "function, external action, data loader, historian, run-after function) raises; it is non-trivial if the call "
        "was reached.")
F = dict(max_time=5, max_state=2, external=0.6, state_external=0.5, ext=0.6, subs=0.5, max_items=4,
         hist_sizes=[0, 1, 2, 3, 5, 8])
SITES = ["post_step", "post_step", "action", "action", "load", "store", "run_after"]


def make(rng, tier):
    spec, ref = gen.gen_ref_spec(rng, F)
    site = gen.pick(rng, SITES)
    return dict(spec=spec, fault=dict(site=site, n=rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14] if site == "post_step" else [0, 0, 0, 1, 1, 2, 4]),
                                      kind=gen.pick(rng, ["raise", "raise", "crash"])),
                steps=rng.random() < 0.3 and site != "run_after", again=rng.randint(0, 2))


class Boom(Exception):
    pass


def run(sc, ctx):
    spec, fault = sc["spec"], sc["fault"]
    ref_of(spec)
    if fault["site"] not in SITES or fault["kind"] not in ("raise", "crash") or (sc["steps"] and fault["site"] == "run_after"):
        raise refsim.Reject("malformed")
    grid = refsim.grid_times(spec["grid"])

    def go(h):
        drive.build(h)
        if sc["steps"]:
            for a, b in zip(grid, grid[1:]):
                drive.step(h, a, b)
            drive.finish(h)
        else:
            drive.solve(h, rebuild=False)
    w0, h0 = drive.one(spec, ctx)
    h0.keep_frames = True
    try:
        go(h0)
    except Violation:
        raise refsim.Reject("the plain run fails")
    ctx.take(w0)
    w, h = drive.one(spec, ctx, faults=[fault])
    h.keep_frames = True
    after = []
    plain = h.fault_point
    raised = []

    def point(site):
        if raised:
            after.append(site)
        try:
            return plain(site)
        except BaseException as e:
            raised.append(e)
            raise
    h.fault_point = point
    got = None
    try:
        with drive.interpreted_events():
            go(h)
    except BaseException as e:
        if not raised:
            raise
        got = e
    ctx.take(w)
    if not raised:
        ctx.probe("not_reached")
        same_tables(h, h0, "without the fault being met")
        return
    ctx.nontrivial = True
    ctx.probe("at_" + fault["site"])
    what = f"{fault['kind']} in call {fault['n']} of {fault['site']}"
    if got is None:
        raise Violation("error-swallowed", f"{what}: the caller saw no error")
    if got is not raised[0]:
        inner = got
        # (drive turns errors of the program into violations)
        if isinstance(got, Violation) and got.__cause__ is not None:
            inner = got.__cause__
        if inner is not raised[0]:
            raise Violation("error-changed", f"{what}: the caller saw {type(inner).__name__}: {str(inner)[:200]}")
    if after:
        raise Violation("calls-after-error", f"{what}: afterwards called: {after[:10]}")
    if h.model is None or getattr(h.model, "numba_model", None) is None:
        return
    with drive.expected_to_work():
        h.model.create_historian_df()
    t, c = oracles.table(h)
    t0, c0 = oracles.table(h0)
    if h.rows_at_fault is not None and len(t) != h.rows_at_fault:
        raise Violation("rows-lost", f"{what}: {h.rows_at_fault} rows were recorded when it happened, {len(t)} are in the history")
    if len(t) > len(t0):
        raise Violation("rows-differ", f"{what}: {len(t)} rows, {len(t0)} without")
    n = len(t)
    same_data((t, c), (t0[:n], {k: v[:n] for k, v in c0.items()}), what)
    if h.actions != h0.actions[:len(h.actions)]:
        raise Violation("actions-differ", f"{what}: {h.actions} against {h0.actions}")
    # rows at earlier times are not missing
    if fault["site"] in ("post_step", "action") and (h.actions or h.loads) and fault["site"] == "action":
        tf = h.actions[-1][1]
        due = int(np.sum(t0 < tf - 1e-5 * (1 + abs(tf))))
        if n < due:
            raise Violation("rows-missing", f"{what} at {tf!r}: {n} rows recorded, {due} due before")
    if spec["hist"]["type"] == "mem":
        f, f0 = [np.concatenate(x) if x else np.zeros((0, 0)) for x in (h.frames, h0.frames)]
        if len(f) and not np.array_equal(f, f0[:len(f)], equal_nan=True):
            raise Violation("handed-values", f"{what}: the rows handed over are not the first rows of the history")
