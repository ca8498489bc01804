"""P15: the logger level selects columns of the history, and changes nothing else"""
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=500, thorough=30000)
RULE = ("One scenario is a generated system whose variables have logger levels and aliases, run with each level of the "
        "model; it is non-trivial if the levels select different columns.")
F = dict(max_time=4, max_state=1, external=0.35, ext=0.45, max_items=4, subs=0.5, sets=0.2, maps=0.5,
         hist_sizes=[0, 0, 1, 2, 3, 8])
SMOOTH = dict(max_time=3, max_state=0, external=0.3, decay=0.6, max_items=4, subs=0.5, sets=0.2, maps=0.5,
              kinds=["cell", "pair", "static", "scell", "branch", "total"], ext=0.4, methods=["Euler", "RK45"],
              hist_sizes=[0, 0, 1, 3, 8])
ORDER = ["all", "debug", "info"]


def make(rng, tier):
    if rng.random() < 0.3:
        spec = gen.gen_spec(rng, SMOOTH)
        if spec["solver"]["method"] == "RK45":
            spec["events"] = []
            if refsim.all_ext(spec):
                spec["solver"]["method"] = "Euler"
    else:
        spec, _ = gen.gen_ref_spec(rng, F)
    style = rng.random()
    k = 0
    for it in spec["items"]:
        log, alias = {}, {}
        for v in models.VARS[it["kind"]]:
            if rng.random() < (0.5 if style < 0.6 else 0.1):
                log[v] = gen.pick(rng, ORDER)
            if rng.random() < 0.2:
                alias[v] = gen.pick(rng, ["speed", "a", "out.value", it["tag"] + "." + v, "x_dot"]) + str(k)
                k += 1
        if log:
            it["log"] = log
        if alias:
            it["alias"] = alias
    if rng.random() < 0.3:
        spec["hist"] = dict(type="local", size=rng.choice([1, 2, 5, 40]))
    return dict(spec=spec, levels=[gen.pick(rng, ["debug", "info"]), gen.pick(rng, ORDER)])


def expected_names(h, spec, level):
    """names by which the history must know variables: name -> a path"""
    out = {}
    hidden = {}
    for it in spec["items"]:
        dots = {d: s for s, d in models.STATES[it["kind"]].items()}
        for v in list(models.VARS[it["kind"]]) + list(dots):
            base = dots.get(v, v)
            lev = it.get("log", {}).get(base, "all")
            path = h.path(f"{it['tag']}.{v}")
            where = out if ORDER.index(lev) >= ORDER.index(level) else hidden
            where[path] = path
            a = it.get("alias", {}).get(base)
            if a is not None:
                where[a + ("_dot" if v != base else "")] = path
    return out, hidden


def run(sc, ctx):
    spec = sc["spec"]
    step_tolerance(spec)
    names = [a for i in spec["items"] for a in i.get("alias", {}).values()]
    if len(set(names)) != len(names) or any(x not in ORDER for x in sc["levels"]) or \
            any(l not in ORDER for i in spec["items"] for l in i.get("log", {}).values()):
        raise refsim.Reject("malformed")
    plain = copy.deepcopy(spec)
    for i in plain["items"]:
        i.pop("log", None)
        i.pop("alias", None)
    w0, h0 = drive.one(plain, ctx)
    try:
        drive.solve(h0)
    except Violation:
        raise refsim.Reject("the plain run fails")
    ctx.take(w0)
    d0 = h0.model.historian_df
    t0 = np.asarray(d0["time"], float)
    for level in dict.fromkeys(sc["levels"]):
        w, h = drive.one(spec, ctx, level=level)
        drive.solve(h)
        ctx.take(w)
        df = h.model.historian_df
        what = f"level {level}"
        shown, hidden = expected_names(h, spec, level)
        ctx.nontrivial |= bool(hidden)
        ctx.probe("columns_shown", len(shown))
        ctx.probe("columns_hidden", len(hidden))
        t = np.asarray(df["time"], float)
        if len(t) != len(t0):
            raise Violation("rows-differ", f"{what}: {len(t)} rows at {list(t)}, {len(t0)} without levels")
        cmp_col("time", t, t0, what, 0.0)
        for n, path in shown.items():
            try:
                col = df[n]
                again = df.get(n)
                listed = df[[n, "time"]]
            except KeyError:
                raise Violation("missing-column", f"{what}: {n} ({path})") from None
            cmp_col(n, col, d0[path], what, 0.0, t)
            cmp_col(n, again, d0[path], what, 0.0, t)
            if list(listed.columns) != [n, "time"]:
                raise Violation("column-names", f"{what}: {list(listed.columns)} for {[n, 'time']}")
            cmp_col(n, listed[n], d0[path], what, 0.0, t)
        for n in hidden:
            if df.get(n) is not None:
                raise Violation("column-shown", f"{what}: {n}")
        if h.actions != h0.actions or h.ras != h0.ras:
            raise Violation("actions-differ", f"{what}: {h.actions[:10]} {h.ras} against {h0.actions[:10]} {h0.ras}")
        if spec["hist"]["type"] == "local":
            check_file(h, df, shown, what, t)


def check_file(h, df, shown, what, t):
    """the file has the same columns, each once, by one of its names"""
    import pandas as pd
    f = pd.read_csv(h.hist_path, float_precision="round_trip")
    got = list(f.columns)
    if "time" not in got or len(f) != len(t):
        raise Violation("file-rows", f"{what}: {len(f)} rows of {got[:6]}")
    by = {}
    for n in got:
        if n == "time":
            continue
        if n not in shown:
            raise Violation("file-columns", f"{what}: column {n!r} in the file")
        by.setdefault(shown[n], []).append(n)
        cmp_col(n + " in the file", f[n], df[n], what, 0.0, t)
    if set(by) != set(shown.values()) or any(len(v) > 1 for v in by.values()):
        raise Violation("file-columns", f"{what}: columns in the file {got}, variables shown {sorted(set(shown.values()))}")
