"""P01: the recorded history does not depend on how it is buffered"""
import os

import pandas as pd

from .common import *

LEVEL = "exploration"
RUNS = dict(quick=500, thorough=30000)
RULE = ("One scenario is a generated system run under several buffer sizes and historians; it is non-trivial if one of "
        "the runs flushed its buffer at least twice.")
REF = dict(max_time=4, max_state=2, external=0.35, hist_sizes=[0], hists=["inmem"], nasty_grid=0.2, ext=0.5)
SMOOTH = dict(max_time=3, max_state=0, external=0.3, decay=0.6, kinds=["cell", "pair", "static", "scell", "branch"],
              ext=0.4, maps=0.3, hists=["inmem"])


def make(rng, tier):
    if rng.random() < 0.3:
        spec = gen.gen_spec(rng, SMOOTH)
        spec["solver"].pop("max_step", None)
        if rng.random() < 0.25 and not spec.get("ext") and not any(x.get("ext") for x in spec.get("subs", [])):
            # (its solver reuses the last derivative after an event, so that where it steps matters a lot)
            spec["events"] = []
            spec["solver"]["method"] = "RK45"
    else:
        spec, _ = gen.gen_ref_spec(rng, REF)
    rows = spec["grid"]["n"] + 1
    sizes = [1, 2, 3, rows - 1, rows, rows + 1, rng.randint(1, 2 * rows)]
    hists = []
    for _ in range(rng.randint(1, 3)):
        hists.append(dict(type=gen.pick(rng, ["mem", "mem", "local"]), size=max(0, gen.pick(rng, sizes))))
    return dict(spec=spec, hists=hists, reset=rng.random() < 0.2)


def one_run(spec, hist, ctx, reset):
    w, h = drive.one(spec, ctx, hist=hist)
    h.keep_frames = True
    drive.solve(h)
    if reset:
        h.frames.clear()
        with drive.expected_to_work():
            h.sim.reset(spec["grid"]["t0"])
        drive.solve(h, rebuild=False)
    ctx.take(w)
    return w, h


def run(sc, ctx):
    spec = sc["spec"]
    tol = step_tolerance(spec)
    w0, h0 = one_run(spec, dict(type="inmem", size=0), ctx, False)
    want = snapshot(h0)
    loose, evals = loose_columns(h0), refsim.grid_times(spec["grid"])
    for hist in sc["hists"]:
        if hist["size"] < 0 or hist["type"] not in ("mem", "local"):
            raise refsim.Reject("malformed")
        # a file keeps the rows of all runs: no reset there
        reset = bool(sc.get("reset")) and hist["type"] == "mem"
        w, h = one_run(spec, hist, ctx, reset)
        what = f"buffer of {hist['size']} ({hist['type']}{', after a reset' if reset else ''})"
        same_data(snapshot(h), want, what, tol, loose=loose, evals=evals)
        if [i for i, _ in h.actions[-len(h0.actions):]] != [i for i, _ in h0.actions] and h0.actions:
            raise Violation("actions-differ", f"{what}: {h.actions} against {h0.actions}")
        n = len(want[0])
        have = snapshot(h)
        if hist["type"] == "mem":
            ctx.probe("flushes", len(h.frames))
            ctx.nontrivial |= len(h.frames) > 2
            got = np.concatenate(h.frames) if h.frames else np.zeros((0, 0))
            if len(got) != n:
                raise Violation("handed-rows", f"{what}: {[len(f) for f in h.frames]} rows handed, {n} in the history")
            if hist["size"] and any(len(f) > hist["size"] + 1 for f in h.frames):
                raise Violation("batch-size", f"{what}: {[len(f) for f in h.frames]} rows handed at once")
            cols, data = h.history()
            if not np.array_equal(got, data, equal_nan=True):
                raise Violation("handed-values", f"{what}: the rows handed over are not those of the history")
        else:
            with drive.expected_to_work():
                df = pd.read_csv(h.hist_path, float_precision="round_trip")
            ctx.probe("local_files")
            ctx.nontrivial |= hist["size"] and n > 2 * hist["size"]
            if len(df) != n:
                raise Violation("file-rows", f"{what}: {len(df)} rows in the file, {n} in the history")
            named = [c for c in df.columns]
            if "time" not in named or not any(a in named for a in want[1]):
                raise Violation("file-columns", f"{what}: {named}")
            for c in named:
                if c == "time":
                    cmp_col("time", df[c], have[0], what + " file", 0.0)
                elif c in have[1]:
                    cmp_col(c, df[c], have[1][c], what + " file", 0.0)
