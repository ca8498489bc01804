"""P19: external data given to, and replaced in, a model that is built"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a generated system whose model is built without the data of the system, or with them, and is given "
        "other data files for other variables through set_external_mappings, once or several times, after runs, single "
        "steps and failed loads, before or after a reset or a new simulation, and then run to the end; it is non-trivial if "
        "mapped data change during the last run.")
F = dict(ext=1.0, max_time=3, max_state=0, external=0.3, max_items=4, g=0.4, subs=0.4, hist_sizes=[0, 0, 1, 2, 3, 8],
         kinds=["cell", "cell", "static", "branch", "scell", "total"])


def keys(ext):
    return {v for f in ext["files"] for v in f["map"]}


def bare(spec):
    return {k: v for k, v in spec.items() if k != "ext"}


def make(rng, tier):
    spec, _ = gen.gen_ref_spec(rng, F, want=lambda s, r: "ext" in s)
    taken = {d for d, _ in spec.get("maps", [])} | {d for d, _ in spec.get("sums", [])}
    for s in spec.get("subs", []):
        if s.get("ext"):
            taken |= keys(s["ext"])
    for e in spec.get("events", []):
        taken |= {d[1] for d in e["do"]}
    lives = []
    built_with = rng.random() < 0.3
    busy = taken | keys(spec["ext"]) if built_with else taken
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        other = gen.gen_ext(rng, F, bare(spec), busy)
        if other is None:
            continue
        if built_with and not lives:
            busy = taken | keys(other)      # data the system has are kept, what is set later is for other variables
        try:
            ref_of(dict(spec, ext=other))
        except refsim.Reject:
            if built_with:
                break
            continue
        life = dict(ext=other, how=gen.pick(rng, ["full", "full", "partial", "fault", "none"]))
        if life["how"] == "partial":
            life["steps"] = rng.randint(1, spec["grid"]["n"])
        elif life["how"] == "fault":
            life["n"] = rng.choice([0, 1, 1, 2, 3, 5])
        life["again"] = gen.pick(rng, ["reset", "reset", "newsim"])
        life["order"] = gen.pick(rng, ["set_first", "set_last"])
        lives.append(life)
    return dict(spec=spec, lives=lives, built_with=built_with and bool(lives))


def fresh(spec, ctx):
    w, h = drive.one(spec, ctx)
    try:
        drive.solve(h)
    except Violation:
        raise refsim.Reject("the plain run fails")       # another property
    ctx.take(w)
    return h


def check(h, spec, ctx, what):
    h0 = fresh(spec, ctx)
    tol = step_tolerance(spec)
    same_data(snapshot(h), snapshot(h0), what, tol, loose=loose_columns(h0), evals=refsim.grid_times(spec["grid"]))
    same_actions(h.actions, h0.actions, what, tol)


def run(sc, ctx):
    spec, lives = sc["spec"], sc["lives"]
    ref = ref_of(spec)
    if not spec.get("ext"):
        raise refsim.Reject("no data")
    exts = [x["ext"] for x in lives] + [spec["ext"]]
    for e in exts:
        ref_of(dict(spec, ext=e))
    grid = refsim.grid_times(spec["grid"])
    start = dict(spec, ext=exts[0])
    built_with = sc.get("built_with") and lives
    if built_with:
        own = keys(exts[0])
        if any(own & keys(e) for e in exts[1:]):
            raise refsim.Reject("a variable would be mapped twice")
    else:
        start["late"] = True
    w, h = drive.one(start, ctx)
    drive.build(h)
    with drive.expected_to_work():
        if not built_with:
            h.attach(exts[0], 50)
    what = "data set after the model was built"
    for j, life in enumerate(lives):
        how = life["how"]
        ctx.probe("life_" + how)
        if how == "full":
            drive.solve(h, rebuild=False)
            if not (built_with and j):
                check(h, dict(spec, ext=exts[j]), ctx, what + f" (run {j})")
        elif how == "partial":
            k = max(1, min(life["steps"], len(grid) - 1))
            for a, b in zip(grid[:k], grid[1:k + 1]):
                drive.step(h, a, b)
        elif how == "fault":
            base = h.counts.get("load", 0)
            h.faults = {"load": {base + life["n"]: dict(site="load", n=base + life["n"], kind="raise")}}
            try:
                drive.solve(h, rebuild=False)
                ctx.probe("fault_not_reached")
            except (drive.InjectedFault, drive.Crash):
                ctx.probe("broken_off_at_load")
            h.faults = {}
        elif how != "none":
            raise refsim.Reject("malformed")
        nxt = exts[j + 1]
        order = life["order"]
        if not keys(exts[j]) <= keys(nxt) or built_with:
            order = "set_first"        # a reset gives the variables that are no longer mapped their initial values
        h.actions.clear()
        with drive.expected_to_work(), drive.interpreted_events():
            if order == "set_first":
                h.attach(nxt, 51 + j)
            if life["again"] == "newsim":
                h.build_sim()
            elif life["again"] == "reset":
                h.sim.reset(spec["grid"]["t0"])
            else:
                raise refsim.Reject("malformed")
            if order != "set_first":
                h.attach(nxt, 51 + j)
        ctx.probe("order_" + order)
    drive.solve(h, rebuild=False)
    ctx.take(w)
    if built_with:
        # both sets of data: the reference has them in one
        both = dict(loader="csv", chunk=1000, files=exts[0]["files"] + spec["ext"]["files"])
        final = dict(spec, ext=both)
        final_ref = ref_of(final)
        ctx.probe("built_with_data")
    else:
        final, final_ref = spec, ref
    check(h, final, ctx, what)
    oracles.check_eval_values(h, final_ref)
    ctx.probe("sets", len(lives) + 1)
    t0, t1 = spec["grid"]["t0"], spec["grid"]["t1"]
    ctx.nontrivial = any(len(set(v for t, v in zip(ts, vs) if t0 <= t <= t1)) > 1
                         for ts, vs, k in refsim.all_ext(spec).values())
