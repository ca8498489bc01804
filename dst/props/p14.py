"""P14: the functions a system asks to have called are called when they are due"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a system of nested systems with functions to be called after steps and after runs, run at once "
        "one or more times with resets, step by step, or broken off by a fault; it is non-trivial if some nested system "
        "has such a function.")
F = dict(max_time=3, max_state=1, external=0.3, ext=0.35, subs=0.85, sets=0.1, max_items=4, g=0.0, min_items=1,
         kinds=["cell", "static", "scell", "branch", "pair"], hist_sizes=[0, 0, 0, 1, 2, 3, 8],
         methods=["Euler", "Euler", "RK45"], no_rate=True, late=0.0)


def make(rng, tier):
    spec = gen.gen_spec(rng, F)
    slots = [1, 2, 3]
    rng.shuffle(slots)
    for s in spec.get("subs", []):
        if not s.get("set"):
            if rng.random() < 0.6:
                s["hook"] = True
            if rng.random() < 0.6 and slots:
                s["ps"] = slots.pop()
    if rng.random() < 0.2:
        spec["post_step"] = False
    # the clock tells at which time the state is that a post-step function finds
    spec["items"].append(dict(tag="clk", kind="cell", x=spec["grid"]["t0"], r=1.0, p=0.0, q=0.0, u=0.0, w=0.0, c=0.0, g=0.0))
    if rng.random() < 0.3:
        spec["events"] = []
    if spec["solver"]["method"] == "RK45":
        spec["events"] = []
        if refsim.all_ext(spec):
            spec["solver"]["method"] = "Euler"
    lives = [gen.pick(rng, ["solve", "solve", "steps", "fault"]) for _ in range(rng.choice([1, 1, 2, 3]))]
    return dict(spec=spec, lives=lives, site=gen.pick(rng, ["post_step", "action", "load", "store", "run_after"]),
                n=rng.randint(0, 6))


def run(sc, ctx):
    spec = sc["spec"]
    sv = spec.get("solver", {})
    g = spec["grid"]
    if not any(i["tag"] == "clk" and i.get("x") == g["t0"] and i.get("r") == 1.0 and not i.get("g") and not i.get("d")
               and not i.get("sub") for i in spec["items"]) or \
            any(d[1].startswith("clk.") for e in spec.get("events", []) for d in e["do"]) or \
            any(m[0].startswith("clk.") for m in spec["maps"]):
        raise refsim.Reject("no clock")
    if any(v.startswith("clk.") for ext in [spec.get("ext")] + [s.get("ext") for s in spec.get("subs", [])]
           for f in (ext or {}).get("files", []) for v in f["map"]):
        raise refsim.Reject("no clock")
    if sv.get("method", "RK45") == "RK45":
        if spec.get("events") or refsim.all_ext(spec):
            raise refsim.Reject("RK45")
    elif sv.get("method") != "Euler":
        raise refsim.Reject("method")
    elif oracles.has_state_events(spec):
        step_tolerance(spec)
    subs = spec.get("subs", [])
    if any(s.get("set") and ("hook" in s or "ps" in s) for s in subs):
        raise refsim.Reject("malformed")
    inside = {""}
    for s in subs:       # (parents come before their parts)
        if s.get("parent", "") in inside:
            inside.add(s["tag"])
    hooks = sorted([spec["tag"]] + [s["tag"] for s in subs if s.get("hook") and not s.get("set") and s["tag"] in inside])
    posts = sorted(([""] if spec.get("post_step", True) else []) +
                   [s["tag"] for s in subs if s.get("ps") and not s.get("set") and s["tag"] in inside])
    if len(set(s["ps"] for s in subs if s.get("ps"))) != len([s for s in subs if s.get("ps")]) or \
            any(s.get("ps") not in (None, 1, 2, 3) for s in subs):
        raise refsim.Reject("malformed")
    w, h = drive.one(spec, ctx)
    seen = []
    clk = h.path("clk.x")

    def look(h):
        m = h.model
        seen.append(clock(m, clk))
    h.on_post = look
    h.on_sub_post = look
    drive.build(h)
    ctx.nontrivial = len(hooks) > 1 or len([p for p in posts if p]) > 0
    grid = refsim.grid_times(g)
    simple = sv.get("method") == "Euler" and "max_step" not in sv and not oracles.has_state_events(spec)
    for j, how in enumerate(sc["lives"]):
        if j:
            with drive.expected_to_work():
                h.sim.reset(g["t0"])
        seen.clear()
        h.post_log.clear()
        h.ras.clear()
        h.actions.clear()
        h.loads.clear()
        h.stores.clear()
        what = f"run {j} ({how})"
        ctx.probe("life_" + how)
        due = True
        if how == "solve":
            drive.solve(h, rebuild=False)
        elif how == "steps":
            for a, b in zip(grid, grid[1:]):
                drive.step(h, a, b)
            drive.finish(h)
            due = False
        elif how == "fault":
            base = h.counts.get(sc["site"], 0)
            h.faults = {sc["site"]: {base + sc["n"]: dict(site=sc["site"], n=base + sc["n"], kind="raise")}}
            try:
                drive.solve(h, rebuild=False)
            except drive.InjectedFault:
                ctx.probe("broken_off_at_" + sc["site"])
                due = None if sc["site"] in ("run_after", "store") else False
                # the last round of post-step functions is incomplete if one of them failed
            h.faults = {}
        else:
            raise refsim.Reject("malformed")
        rows = len(h.history()[1])
        if due is True:
            if sorted(t for t, _ in h.ras) != hooks:
                raise Violation("run-after-calls", f"{what}: run-after functions called of {[t for t, _ in h.ras]}, due {hooks}")
            if any(n != rows for _, n in h.ras):
                raise Violation("run-after-early", f"{what}: run-after functions found {[n for _, n in h.ras]} rows of {rows}")
        elif due is False and h.ras:
            raise Violation("run-after-calls", f"{what}: run-after functions called of {[t for t, _ in h.ras]}, none due")
        check_posts(ctx, h, posts, seen, g, what, how == "fault")
        if due is True or how == "steps":
            if posts:
                last = seen[-1] if seen else None
                if last is None or abs(last - g["t1"]) > 1e-6 * (1 + abs(g["t1"])):
                    raise Violation("post-step-missing", f"{what}: the last step after which post-step functions were "
                                    f"called was to {last!r}, the run is to {g['t1']!r}")
                miss = [t for t in grid[1:] if not any(abs(t - s) <= 1e-6 * (1 + abs(t)) for s in seen)]
                if miss:
                    raise Violation("post-step-missing", f"{what}: no post-step function was called at {miss}, but at {seen}")
                if simple and not h.loads and len(h.stores) <= 1 and how == "solve" and not spec.get("events"):
                    # (the solver begins with a small step; the others end at the output times)
                    ctx.probe("exact_counts")
                    got = [t for t in seen[::len(posts)] if t >= grid[1] - 1e-9 * (1 + abs(grid[1]))]
                    if len(got) != len(grid) - 1:
                        raise Violation("post-step-count", f"{what}: post-step functions called {len(got)} times (at {got}), "
                                        f"{len(grid) - 1} steps to output times")
    ctx.take(w)


def clock(m, clk):
    m.update_local_variables()
    return float(m.path_to_variable[clk].value)


def check_posts(ctx, h, posts, seen, g, what, failed):
    log = h.post_log
    k = len(posts)
    if not k:
        if log:
            raise Violation("post-step-calls", f"{what}: {log}")
        return
    ctx.probe("post_step_rounds", len(log) // k)
    full = len(log) // k * k
    if full != len(log) and not failed:
        raise Violation("post-step-calls", f"{what}: {len(log)} calls of {k} functions")
    for i in range(0, full, k):
        if sorted(log[i:i + k]) != posts:
            raise Violation("post-step-calls", f"{what}: in round {i // k} called were those of {log[i:i + k]}, due {posts}")
    for a, b in zip(seen[k - 1::k], seen[k::k]):
        if b <= a - 1e-9 * (1 + abs(a)):
            raise Violation("post-step-time", f"{what}: post-step functions found the state of {b!r} after that of {a!r}")
    for i in range(0, full, k):
        if len(set(seen[i:i + k])) > 1:
            raise Violation("post-step-time", f"{what}: post-step functions of one step found the states of {seen[i:i + k]}")
    if seen and (min(seen) < g["t0"] - 1e-9 or max(seen) > g["t1"] + 1e-6 * (1 + abs(g["t1"]))):
        raise Violation("post-step-time", f"{what}: post-step functions found states of {min(seen)!r} to {max(seen)!r}")
