"""P08: reset makes the next run equal to the first run of a new model"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a generated system whose simulation is run, stepped, broken off by a fault or crash of a seam, "
        "or has its variables changed, once or several times, is reset (or given a new simulation) each time, and then "
        "run to the end; it is non-trivial if a run before the last one got past its first step.")
REF = dict(max_time=5, max_state=2, external=0.35, ext=0.5, hist_sizes=[0, 0, 1, 2, 3, 8])
SMOOTH = dict(max_time=3, max_state=0, external=0.3, decay=0.6, kinds=["cell", "pair", "static", "scell", "branch"],
              ext=0.4, maps=0.3, methods=["Euler", "RK45"], hist_sizes=[0, 0, 1, 3, 8])


def make(rng, tier):
    if rng.random() < 0.35:
        spec = gen.gen_spec(rng, SMOOTH)
        spec["solver"].pop("max_step", None)
        if spec["solver"]["method"] == "RK45":
            spec["events"] = []
            if refsim.all_ext(spec):
                spec["solver"]["method"] = "Euler"
    else:
        spec, _ = gen.gen_ref_spec(rng, REF)
    n = spec["grid"]["n"]
    lives = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = gen.pick(rng, ["full", "partial", "partial", "fault", "fault", "fault", "none"])
        life = dict(how=k)
        if k == "partial":
            life["steps"] = rng.randint(1, n)
            life["finish"] = rng.random() < 0.5
        elif k == "fault":
            life["site"] = gen.pick(rng, ["post_step", "post_step", "load", "action", "store", "run_after"])
            life["n"] = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13])
            life["kind"] = gen.pick(rng, ["raise", "crash"])
        if rng.random() < 0.3:
            it = gen.pick(rng, spec["items"])
            v = gen.pick(rng, list(models.VARS[it.get("kind", "cell")]))
            life["poke"] = [f"{it['tag']}.{v}", gen.pick(rng, gen.VAL)]
        life["again"] = gen.pick(rng, ["reset", "reset", "newsim"])
        lives.append(life)
    sc = dict(spec=spec, lives=lives)
    if rng.random() < 0.15 and lives[-1]["again"] == "newsim" and not spec.get("events") and not refsim.all_ext(spec) \
            and spec["solver"]["method"] == "Euler" and "max_step" not in spec["solver"]:
        g = spec["grid"]
        sc["other_grid"] = dict(t0=g["t0"], t1=g["t1"] + rng.randint(0, 3) * (g["t1"] - g["t0"]), n=rng.randint(1, 30))
    return sc


def run(sc, ctx):
    spec, lives = sc["spec"], sc["lives"]
    tol = step_tolerance(spec)
    last = dict(spec, grid=sc.get("other_grid", spec["grid"]))
    w0, h0 = drive.one(last, ctx)
    h0.keep_frames = True
    try:
        drive.solve(h0)
    except Violation:
        raise refsim.Reject("the plain run fails")       # another property
    ctx.take(w0)

    w, h = drive.one(spec, ctx)
    h.keep_frames = True
    drive.build(h)
    grid = refsim.grid_times(spec["grid"])
    for j, life in enumerate(lives):
        before = h.post_steps
        how = life["how"]
        ctx.probe("life_" + how)
        if how == "full":
            drive.solve(h, rebuild=False)
        elif how == "partial":
            k = max(1, min(life["steps"], len(grid) - 1))
            for a, b in zip(grid[:k], grid[1:k + 1]):
                drive.step(h, a, b)
            if life.get("finish"):
                drive.finish(h)
        elif how == "fault":
            base = h.counts.get(life["site"], 0)
            h.faults = {life["site"]: {base + life["n"]: dict(site=life["site"], n=base + life["n"], kind=life["kind"])}}
            try:
                drive.solve(h, rebuild=False)
                ctx.probe("fault_not_reached")
            except (drive.InjectedFault, drive.Crash):
                ctx.probe("broken_off_at_" + life["site"])
            h.faults = {}
        elif how != "none":
            raise refsim.Reject("malformed")
        if "poke" in life:
            name, val = life["poke"]
            with drive.expected_to_work():
                h.model.set_variables({h.path(name): float(val)})
        ctx.nontrivial |= h.post_steps > before
        h.frames.clear()
        h.actions.clear()
        h.ras.clear()
        h.post_steps = 0
        final = j == len(lives) - 1
        with drive.expected_to_work(), drive.interpreted_events():
            if life["again"] == "newsim":
                g = last["grid"] if final else spec["grid"]
                h.build_sim(**g)
            elif life["again"] == "reset":
                h.sim.reset(spec["grid"]["t0"])
            else:
                raise refsim.Reject("malformed")
    if not lives or ("other_grid" in sc and lives[-1]["again"] != "newsim"):
        raise refsim.Reject("malformed")
    drive.solve(h, rebuild=False)
    ctx.take(w)
    what = "after " + ", ".join(f"{x['how']}+{x['again']}" for x in lives)
    # which data are loaded at the start of the run may differ, and with them the steps
    loose, evals = loose_columns(h0), refsim.grid_times(last["grid"])
    same_data(snapshot(h), snapshot(h0), what, tol, loose=loose, evals=evals)
    same_actions(h.actions, h0.actions, what, tol)
    if h.ras != h0.ras:
        raise Violation("run-after-differ", f"{what}: {h.ras} against {h0.ras}")
    if "other_grid" not in sc and [len(f) for f in h.frames] != [len(f) for f in h0.frames]:
        raise Violation("handed-rows-differ", f"{what}: {[len(f) for f in h.frames]} rows handed to the historian, "
                        f"{[len(f) for f in h0.frames]} by a new model")
    if sum(len(f) for f in h.frames):
        got, (cols, data) = np.concatenate(h.frames), h.history()
        if len(got) != len(data) or not np.array_equal(got, data, equal_nan=True):
            raise Violation("handed-values", f"{what}: the rows handed over are not those of the history")
