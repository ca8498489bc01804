"""P10: single steps give what one run gives"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=800, thorough=50000)
RULE = ("One scenario is a generated system that is advanced by single steps over generated cuts of the time axis, with "
        "variables changed between steps, and buffer flushes, data loads and events falling inside and on the ends of "
        "steps; it is non-trivial if at least two steps were made and an event, a load, a flush or a change took place.")
REF = dict(max_time=5, max_state=1, external=0.35, ext=0.4, hist_sizes=[0, 0, 1, 2, 3, 8])
SMOOTH = dict(max_time=3, max_state=0, external=0.3, decay=0.6, kinds=["cell", "pair", "static", "scell", "branch"],
              ext=0.4, maps=0.3, hist_sizes=[0, 0, 1, 3, 8])


def cuts_for(rng, g):
    t0, t1 = g["t0"], g["t1"]
    n = rng.randint(1, 12)
    pts = set()
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            pts.add(t0 + (t1 - t0) * rng.randint(1, 63) / 64)
        elif r < 0.7:
            pts.add(round(t0 + (t1 - t0) * rng.random(), 1))
        else:
            pts.add(gen.pick(rng, refsim.grid_times(g)))
    pts = sorted(x for x in pts if t0 < x < t1)
    out = [t0]
    for x in pts + [t1]:
        if x - out[-1] > 5e-3:
            out.append(x)
    return out


def make(rng, tier):
    if rng.random() < 0.3:
        spec = gen.gen_spec(rng, SMOOTH)
        spec["solver"].pop("max_step", None)
        return dict(spec=spec, smooth=True)
    for _ in range(60):
        spec = gen.gen_spec(rng, REF)
        g = spec["grid"]
        if rng.random() < 0.8:
            g["cuts"] = cuts_for(rng, g)
            # data that states integrate change at the ends of steps only
            for f in (spec.get("ext") or {}).get("files", []):
                if any(i.get("g") and f"{i['tag']}.u" in f["map"] for i in spec["items"]):
                    m = f.get("mult", 1)
                    g["cuts"] = sorted(set(g["cuts"]) | {x * m for x in f["times"] if g["t0"] < x * m < g["t1"]})
        else:
            g["cuts"] = refsim.grid_times(g)
        taken = {d for d, _ in spec["maps"]} | {d for d, _ in spec["sums"]} | set(refsim.all_ext(spec))
        free = [f"{i['tag']}.{v}" for i in spec["items"] for v in models.VARS[i["kind"]]
                if v not in models.DERIVED[i["kind"]] and f"{i['tag']}.{v}" not in taken
                and v not in ("g", "d", "c", "p", "q", "lev")]
        between = []
        for t in g["cuts"][1:-1]:
            if free and rng.random() < 0.4:
                between.append([t, [[gen.pick(rng, free), gen.pick(rng, gen.VAL)] for _ in range(rng.randint(1, 2))],
                                gen.pick(rng, ["model", "variable"])])
        spec["between"] = between
        try:
            ref_of(spec)
        except refsim.Reject:
            if any(e["type"] == "state" for e in spec["events"]):
                spec["events"] = [e for e in spec["events"] if e["type"] != "state"]
                spec["solver"] = dict(method="Euler")
                try:
                    ref_of(spec)
                except refsim.Reject:
                    continue
            else:
                continue
        return dict(spec=spec)
    raise refsim.Reject("no scenario")


def change(h, what, how):
    with drive.expected_to_work():
        if how == "model":
            h.model.set_variables({h.path(n): float(v) for n, v in what})
        else:
            for n, v in what:
                h.model.variables[h.model.aliases[h.path(n)]].value = float(v)


def run(sc, ctx):
    spec = sc["spec"]
    if sc.get("smooth"):
        tol = step_tolerance(spec)
        w0, h0 = drive.one(spec, ctx)
        try:
            drive.solve(h0)
        except Violation:
            raise refsim.Reject("the plain run fails")
        ctx.take(w0)
        cuts = refsim.grid_times(spec["grid"])
        between = {}
    else:
        spec = dict(spec, between=[b if len(b) > 2 else b + ["model"] for b in spec.get("between", [])])
        ref = ref_of(dict(spec, between=[b[:2] for b in spec["between"]]))
        cuts = spec["grid"].get("cuts") or refsim.grid_times(spec["grid"])
        if len(cuts) < 2 or any(b <= a for a, b in zip(cuts, cuts[1:])):
            raise refsim.Reject("malformed")
        between = {b[0]: b for b in spec["between"]}
        ref_probes(ctx, spec, ref)
    spec = dict(spec, grid=dict(t0=cuts[0], t1=cuts[-1], n=max(1, spec["grid"].get("n", 1))))
    w, h = drive.one(spec, ctx)
    h.keep_frames = True
    drive.build(h)
    for a, b in zip(cuts, cuts[1:]):
        t, status = drive.step(h, a, b)
        if abs(t - b) > 1e-9 * (1 + abs(b)):
            raise Violation("step-end", f"a step from {a!r} to {b!r} ended at {t!r}")
        for x in between:
            if abs(x - b) < refsim.SAME and b != cuts[-1]:
                change(h, between[x][1], between[x][2])
                ctx.probe("changes")
    drive.finish(h)
    ctx.take(w)
    ctx.probe("steps", len(cuts) - 1)
    ctx.nontrivial = len(cuts) > 2 and (len(h.stores) > 1 or len(h.loads) > 1 or bool(between) or
                                        len(h.history_times()[0]) > len(cuts))
    if sc.get("smooth"):
        same_data(snapshot(h), snapshot(h0), "single steps", tol, loose=loose_columns(h0), evals=cuts)
        same_actions(h.actions, h0.actions, "single steps", tol)
        return
    h.spec = dict(sc["spec"])
    oracles.check_rows_against(h, ref)
    oracles.check_firings(h, ref)
    if h.frames:
        got, (cols, data) = np.concatenate(h.frames), h.history()
        if not np.array_equal(got, data, equal_nan=True):
            raise Violation("handed-values", "the rows handed over are not those of the history")
