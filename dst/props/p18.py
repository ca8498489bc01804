"""P18: the recorded trajectory solves the equations of the system, whatever the output times"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=400, thorough=30000)
RULE = ("One scenario is a generated system of coupled states (through mappings, sums and nested systems, also driven by "
        "the time), integrated with several divisions of the time axis into output times and steps; it is non-trivial if "
        "a state depends on another one or on the time.")
F = dict(max_time=0, max_state=0, ext=0.0, decay=0.6, g=0.6, maps=0.4, subs=0.5, sets=0.2, min_items=2, max_items=6,
         kinds=["cell", "cell", "pair", "pair", "static", "total", "scell"], hist_sizes=[0, 0, 1, 3, 8],
         methods=["RK45"], late=0.05)


def make(rng, tier):
    spec = gen.gen_spec(rng, F)
    taken = {m[0] for m in spec["maps"]} | {s[0] for s in spec["sums"]}
    outs = {"cell": ["x", "x", "y", "z"], "scell": ["x", "y"], "static": ["y", "yv"], "total": ["s2", "s2"],
            "pair": ["a", "b", "e"]}
    for j, it in enumerate(spec["items"]):
        # (a state that feeds back to one before it would make the systems stiff or unstable)
        d = {"cell": "r", "scell": "r", "pair": "r", "static": "u"}.get(it["kind"])
        d = f"{it['tag']}.{d}"
        if j and it["kind"] != "total" and d not in taken and not gen.in_set(spec, it["tag"]) and rng.random() < 0.7:
            s = gen.pick(rng, spec["items"][:j])
            spec["maps"].append([d, f"{s['tag']}.{gen.pick(rng, outs[s['kind']])}"])
    spec["solver"] = dict(method="RK45", rtol=1e-8, atol=1e-10)
    g = spec["grid"]
    if g["t1"] - g["t0"] > 8.0:
        g["t1"] = g["t0"] + 8.0
        g["n"] = min(g["n"], 16)
    if rng.random() < 0.3:
        spec["solver"]["max_step"] = gen.pick(rng, [0.0625, 0.25, 1.0])
    cuts = sorted(set(rng.randint(1, 63) for _ in range(rng.randint(0, 4))))
    return dict(spec=spec, n=[rng.randint(1, 30)], cuts=cuts)


def truth(spec, times, per=400):
    """states at the given times, by a method of its own; Reject if it is not sure of them"""
    st = refsim.State(spec)
    keys = [(i["tag"], s) for i in spec["items"] for s in models.STATES[i.get("kind", "cell")]]
    if not keys:
        raise refsim.Reject("no states")

    def f(t, y):
        for k, x in zip(keys, y):
            st.V[k] = x
        st.eval(t)
        d = st.deriv()
        return np.array([d[k] for k in keys])
    y = np.array([st.V[k] for k in keys])
    t = times[0]
    g = spec["grid"]
    h0 = (g["t1"] - g["t0"]) / per
    out = [y]
    for b in times[1:]:
        m = max(1, int(np.ceil((b - t) / h0)))
        h = (b - t) / m
        for i in range(m):
            s = t + i * h
            k1 = f(s, y)
            k2 = f(s + h / 2, y + h / 2 * k1)
            k3 = f(s + h / 2, y + h / 2 * k2)
            k4 = f(s + h, y + h * k3)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 1e5:
            raise refsim.Reject("the states grow out of bounds")
        t = b
        out.append(y)
    return keys, np.array(out)


def run(sc, ctx):
    spec = sc["spec"]
    if spec.get("events") or refsim.all_ext(spec) or spec["solver"].get("method") != "RK45" or \
            spec["solver"].get("rtol") != 1e-8 or spec["solver"].get("atol") != 1e-10:
        raise refsim.Reject("malformed")
    g = spec["grid"]
    if not g["t1"] > g["t0"] or any(n < 1 for n in sc["n"]):
        raise refsim.Reject("malformed")
    with np.errstate(all="ignore"):
        keys, coarse = truth(spec, [g["t0"], g["t1"]], 100)
        _, fine = truth(spec, [g["t0"], g["t1"]], 200)
    if np.max(np.abs(coarse - fine)) > 1e-5 * (1 + np.max(np.abs(fine))):
        raise refsim.Reject("the reference is not sure")
    src = {s.split(".")[1] for d, s in spec["maps"] if d.split(".")[1] == "r"}
    ctx.nontrivial = bool(src & {"x", "y", "z", "a", "b", "e", "s2", "yv"}) or \
        any(i.get("d") or i["kind"] == "pair" for i in spec["items"])
    for n in dict.fromkeys([g["n"]] + sc["n"]):
        grid = dict(g, n=n)
        times = refsim.grid_times(grid)
        keys, want = truth(spec, times, 200)
        w, h = drive.one(spec, ctx, grid=grid)
        drive.solve(h)
        ctx.take(w)
        compare(h, times, keys, want, f"{n} output times")
    if sc["cuts"]:
        times = sorted({g["t0"], g["t1"]} | {g["t0"] + (g["t1"] - g["t0"]) * c / 64 for c in sc["cuts"]})
        keys, want = truth(spec, times, 200)
        w, h = drive.one(spec, ctx)
        drive.build(h)
        got = [states(h, keys)]
        for a, b in zip(times, times[1:]):
            drive.step(h, a, b)
            got.append(states(h, keys))
        ctx.take(w)
        close(np.array(got), want, times, keys, f"{len(times) - 1} single steps")
        ctx.probe("by_steps")


def states(h, keys):
    with drive.expected_to_work():
        h.model.update_local_variables()
    return [float(h.model.path_to_variable[h.path(f"{t}.{v}")].value) for t, v in keys]


def compare(h, times, keys, want, what):
    t, c = oracles.table(h)
    if len(t) != len(times) or np.max(np.abs(t - np.array(times)) / (1 + np.abs(t))) > 1e-9:
        raise Violation("row-time", f"{what}: rows at {list(t)[:40]}")
    got = np.column_stack([c[h.path(f"{a}.{b}")] for a, b in keys])
    close(got, want, times, keys, what)


def close(got, want, times, keys, what):
    scale = 1 + np.maximum.accumulate(np.max(np.abs(want), axis=1))
    err = np.abs(got - want) / scale[:, None]
    if not np.all(err < 2e-4):
        i, j = np.unravel_index(int(np.argmax(np.where(np.isnan(err), np.inf, err) >= 2e-4)), err.shape)
        raise Violation("wrong-solution", f"{what}: {'.'.join(keys[j])} at t={times[i]!r} is {got[i, j]!r}, the equations "
                        f"give {want[i, j]!r}")
