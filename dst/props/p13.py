"""P13: what a file historian has accepted survives a crash"""
import os

from ..disk import Disk
from .common import *

LEVEL = "fault_enumeration"
RUNS = dict(quick=700, thorough=40000)
RULE = ("One scenario is a run with a historian that writes a file in batches, and one fault of the disk (an error or "
        "the end of the process in the n-th open, write, truncation or close, a write cut at a byte) or the end of the "
        "process at another seam, and then the run once more with the same file; it is non-trivial if the fault was met.")
F = dict(max_time=4, max_state=1, external=0.3, ext=0.35, max_items=3, hist_sizes=[1, 1, 2, 3, 5, 8, 40], g=0.2)


def make(rng, tier):
    spec, ref = gen.gen_ref_spec(rng, F)
    spec["hist"] = dict(type="local", size=gen.pick(rng, F["hist_sizes"]))
    stores = max(1, len(ref.rows) // spec["hist"]["size"] + 1)
    r = rng.random()
    if r < 0.25:
        fault = dict(site=gen.pick(rng, ["post_step", "post_step", "action", "load", "run_after"]), kind="crash",
                     n=rng.randint(0, 12))
    else:
        op = gen.pick(rng, ["write"] * 5 + ["open", "close"])
        fault = dict(op=op, n=rng.randrange(min(stores, 8)), kind=gen.pick(rng, ["crash", "crash", "crash", "enospc", "eio",
                                                                   "edquot", "short"]), keep=rng.randint(0, 4000))
        if op == "open":
            fault["kind"] = gen.pick(rng, ["crash", "eacces", "emfile", "enospc"])
        elif fault["kind"] == "short" and op != "write":
            fault["kind"] = "eio"
    return dict(spec=spec, fault=fault, again=rng.random() < 0.7)


def run(sc, ctx):
    spec, fault = sc["spec"], sc["fault"]
    if spec["hist"]["type"] != "local" or spec["hist"]["size"] < 1:
        raise refsim.Reject("malformed")
    step_tolerance(spec)
    try:
        w0, h0 = drive.one(spec, ctx)
        drive.solve(h0)
        whole = read(h0.hist_path)
    except Violation:
        raise refsim.Reject("the plain run fails")
    ctx.take(w0)
    rows0 = len(h0.history()[1])
    if whole.count(b"\n") != rows0 + 1:
        raise Violation("file-rows", f"{whole.count(10)} lines for {rows0} rows and a header")

    plan = []
    faults = []
    if "op" in fault:
        plan.append(fault)
    else:
        faults.append(fault)
    w, h = drive.one(spec, ctx, faults=faults)
    disk = Disk(w.scratch, plan, w.stats_fault)
    exc = None
    acked = 0

    def watch():
        plain = h.hist.store

        def store(df):
            nonlocal acked
            n = len(df.df)
            plain(df)
            acked += n
            check(read(h.hist_path), whole, acked, f"after {acked} rows were handed over")
        h.hist.store = store
    with drive.interpreted_events(), disk.mounted():
        try:
            h.build_model()
            watch()
            h.build_sim()
            h.sim.solve()
        except (drive.Crash, drive.InjectedFault) as e:
            exc = e
        except OSError as e:
            if not disk.fired:
                raise Violation("unexpected-exception:OSError", str(e)) from e
            exc = e
        except Violation:
            raise
        except Exception as e:
            if drive.program_frame(e) is None:
                raise
            raise Violation(f"unexpected-exception:{type(e).__name__}",
                            f"{type(e).__name__}: {str(e)[:300]} after {disk.fired or h.fired}") from e
    ctx.take(w)
    ctx.faults.update(f"disk:{op}:{k}" for op, _, k in disk.fired)
    hit = [f for f in disk.fired if f[2] != "short"] + h.fired
    ctx.nontrivial = bool(disk.fired or h.fired)
    ctx.probe("stores", disk.counts.get("open", 0))
    if hit and exc is None:
        raise Violation("silent-disk-fault", f"{hit} and the run ended without an error")
    if not hasattr(h, "hist_path"):
        return
    left = read(h.hist_path)
    check(left, whole, acked, f"after {hit or disk.fired}")
    if exc is None and left != whole:
        raise Violation("file-differs", f"{len(left)} bytes after {disk.fired}, {len(whole)} without")
    if 0 < len(left) < len(whole) and not left.endswith(b"\n"):
        ctx.probe("torn_row_left")
    if not sc.get("again"):
        return
    # the same program once more, with the file that was left
    w2, h2 = drive.one(spec, ctx)
    h2.hist_file = h.hist_path
    drive.solve(h2)
    ctx.take(w2)
    kept = left[:left.rfind(b"\n") + 1]
    head = whole[:whole.find(b"\n") + 1]
    exp = kept + whole[len(head):] if kept else whole
    got = read(h.hist_path)
    ctx.probe("runs_with_the_file_left")
    if got != exp:
        i = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
        raise Violation("file-after-restart", f"after {hit} {len(left)} bytes were left, and the next run made "
                        f"...{got[max(0, i - 60):i + 80]!r} of it, expected ...{exp[max(0, i - 60):i + 80]!r}")


def read(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return b""


def check(got, whole, acked, what):
    if not whole.startswith(got):
        i = next((i for i, (x, y) in enumerate(zip(got, whole)) if x != y), len(whole))
        raise Violation("file-not-prefix", f"{what}: the file is not the beginning of the history; byte {i}: "
                        f"...{got[max(0, i - 60):i + 80]!r} against ...{whole[max(0, i - 60):i + 80]!r}")
    if got.count(b"\n") < acked + bool(acked):
        raise Violation("accepted-rows-lost", f"{what}: {max(0, got.count(10) - 1)} rows in the file, {acked} were accepted")
