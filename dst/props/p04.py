"""P04: missing or broken data are reported, never made up"""
import os

from .. import world
from .common import *

LEVEL = "fault_enumeration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a system fed from data files and one fault in its data (rows missing at the end or the start, "
        "file or column missing, file torn at a byte, loader raising or serving nothing or old rows at its n-th call); "
        "it is non-trivial if the fault was met.")
F = dict(ext=1.0, max_time=2, max_state=0, external=0.3, max_items=3, g=0.4, subs=0.3, start_rows=0.0,
         kinds=["cell", "static", "static", "branch", "total", "scell"], hist_sizes=[0, 0, 1, 2, 3, 8])


def make(rng, tier):
    spec, _ = gen.gen_ref_spec(rng, F, want=lambda s, r: bool(s.get("ext")))
    ext = spec["ext"]
    i = rng.randrange(len(ext["files"]))
    f = ext["files"][i]
    n = len(f["times"])
    kinds = ["cut", "cut", "late", "nocol", "raise", "raise", "empty", "stale", "none"]
    if ext["loader"] == "csv":
        kinds += ["nofile", "torn", "torn"]
    k = gen.pick(rng, kinds)
    fault = dict(kind=k, file=i)
    if k == "cut":
        fault["keep"] = rng.randint(1, n)
    elif k == "late":
        fault["drop"] = rng.randint(1, n - 1) if n > 1 else 0
    elif k == "nocol":
        fault["col"] = gen.pick(rng, sorted(c for c, _ in f["map"].values()))
    elif k == "nofile":
        fault["n"] = rng.randint(-1, 6)
    elif k == "torn":
        fault["bytes"] = rng.randint(1, 60)
    else:
        fault["n"] = rng.randint(0, 8)
    return dict(spec=spec, fault=fault)


def apply(spec, fault):
    """the spec with the fault in its files, and the faults of the loader"""
    spec = copy.deepcopy(spec)
    f = spec["ext"]["files"][fault["file"]]
    k = fault["kind"]
    faults = []
    sl = None
    if k == "cut":
        sl = slice(0, max(1, fault["keep"]))
    elif k == "late":
        sl = slice(fault["drop"], None)
    elif k == "nocol":
        f["columns"].pop(fault["col"])
        f.pop("order", None)
    elif k == "torn":
        f["torn"] = fault["bytes"]
    elif k in ("raise", "empty", "stale"):
        faults = [dict(site="load", n=fault["n"], kind=k)]
    if sl is not None:
        f["times"] = f["times"][sl]
        if not f["times"]:
            raise refsim.Reject("no rows")
        for c in f["columns"]:
            f["columns"][c] = f["columns"][c][sl]
    return spec, faults


def coverage(spec):
    lo, hi = -1e300, 1e300
    for ext in [spec.get("ext")] + [s.get("ext") for s in spec.get("subs", [])]:
        for f in (ext or {}).get("files", []):
            m = f.get("mult", 1)
            t = [x * m for x in f["times"][f.get("start", 0):]]
            lo, hi = max(lo, t[0]), min(hi, t[-1])
    return lo, hi


def run(sc, ctx):
    base, fault = sc["spec"], sc["fault"]
    ref = ref_of(base)
    if not base.get("ext") or fault["kind"] not in ("cut", "late", "nocol", "raise", "empty", "stale", "none", "nofile",
                                                     "torn"):
        raise refsim.Reject("malformed")
    try:
        spec, faults = apply(base, fault)
    except (IndexError, KeyError, TypeError):
        raise refsim.Reject("malformed")
    t0, t1 = base["grid"]["t0"], base["grid"]["t1"]
    k = fault["kind"]
    if k == "torn":
        if base["ext"]["loader"] != "csv" or base["ext"].get("index_col"):
            raise refsim.Reject("no file")
    else:
        lo, hi = coverage(spec)
    w, h = drive.one(spec, ctx, faults=faults)
    met = []
    must = None
    if k == "nofile":
        if base["ext"]["loader"] != "csv":
            raise refsim.Reject("no file")
        plain = h.fault_point

        def gone(site, *a):
            if site == "load":
                n = h.counts.get("load", 0)
                if n == fault["n"] or (fault["n"] < 0 and n == 0):
                    os.unlink(h.files[(0, fault["file"])])
                    w.stats_fault("load:nofile")
                    met.append(n)
            return plain(site, *a)
        h.fault_point = gone
    exc = None
    try:
        with drive.interpreted_events():
            h.build_model()
            h.build_sim()
            h.sim.solve()
    except drive.InjectedFault as e:
        exc = e
    except Exception as e:
        if drive.program_frame(e) is None:
            raise
        exc = e
        if h.model is not None and getattr(h.model, "numba_model", None) is not None:
            h.model.create_historian_df()
    ctx.take(w)
    ctx.probe("fault_" + k)
    ctx.probe("ended_loudly" if exc is not None else "completed")
    limit = t1
    if k in ("cut", "late"):
        w.stats_fault("file:" + k)
        if hi < t1 or lo > t0:
            must = f"the data cover {lo!r} to {hi!r}"
        limit = hi if lo <= t0 else t0 - 1
    elif k == "nocol":
        w.stats_fault("file:nocol")
        must = f"column {fault['col']} is missing"
        limit = t0 - 1
    elif k == "torn":
        w.stats_fault("file:torn")
        limit = torn_limit(h, spec, fault)
    elif k == "nofile":
        if met:
            # another file may be read, and the file not asked for again
            last = h.files[(0, fault["file"])]
            must = None
            limit = t1
    elif h.fired:
        must = "; ".join(h.must_raise) if k != "raise" else "the loader raised"
    ctx.nontrivial = must is not None or bool(met) or k == "torn"
    ctx.faults.update(w.fault_counts)
    if must and exc is None:
        raise Violation("silent-data-fault", f"{must}, and the run from {t0!r} to {t1!r} ended without an error")
    if exc is not None and not must and not met and k != "torn":
        raise Violation("covered-data-refused", f"{type(exc).__name__}: {exc}; fault {fault}, run from {t0!r} to {t1!r}")
    check_prefix(h, ref, limit, exc is None and k != "torn")


def torn_limit(h, spec, fault):
    """time of the last row of the torn file that is complete"""
    f = spec["ext"]["files"][fault["file"]]
    path = h.files[(0, fault["file"])]
    with open(path, "rb") as g:
        data = g.read()
    lines = data.split(b"\n")
    complete = len(lines) - 1 - 1     # less the header and the rest after the last newline
    if complete <= 0:
        return -1e300
    rest = lines[-1].split(b",")
    k = list(world.make_frame(dict(f, torn=None)).columns).index(f.get("time_col", "time"))
    if len(rest) == k + 1 and rest[k]:
        try:
            whole = float(rest[k]) == f["times"][complete]
        except ValueError:
            whole = False
        if not whole:
            # nothing tells a time that lost its last digits from another time
            raise refsim.Reject("the file is torn within a time")
    return f["times"][complete - 1] * f.get("mult", 1)


def check_prefix(h, ref, limit, complete):
    if h.model is None:
        return
    times, cols = oracles.table(h)
    nm = oracles.names(h)
    tt, tv = oracles.tolerances(h.spec)
    if complete and len(times) != len(ref.rows):
        raise Violation("row-count", f"{len(times)} rows at {list(times)}, expected {[r.t for r in ref.rows]}")
    for i, t in enumerate(times):
        if i >= len(ref.rows):
            raise Violation("row-count", f"{len(times)} rows at {list(times)}, expected {[r.t for r in ref.rows]}")
        r = ref.rows[i]
        if t > limit + 1e-8:
            # (the row of a time event shows the data as of the last step, and comes before data are asked for)
            if r.kind != "event" and not any("torn" in f for f in h.spec["ext"]["files"]):
                raise Violation("row-without-data", f"a row at {t!r} although there are data up to {limit!r} only")
            return
        if abs(t - r.t) > tt * (1 + abs(r.t)):
            raise Violation("row-time", f"row {i} is at {t!r}, expected {r.t!r}")
        oracles.check_values(cols, nm, i, r, tv, None)
