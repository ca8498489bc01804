"""P09: simulations in one process do not influence each other"""
import os
import pickle

from ..world import World
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=400, thorough=25000)
RULE = ("One scenario is two or three generated systems (often with equal names, shared loaders, shared function objects) "
        "whose building, stepping, solving, failing and resetting is interleaved in one process by a generated schedule; it "
        "is non-trivial if the schedule switches between systems that are both built and not finished.")
REF = dict(max_time=4, max_state=1, external=0.35, ext=0.6, max_items=3, hist_sizes=[0, 0, 1, 2, 3, 8],
           loaders=["csv", "csv", "mem", "win"])
SMOOTH = dict(max_time=2, max_state=0, external=0.3, decay=0.6, kinds=["cell", "pair", "static", "scell", "branch"],
              ext=0.5, maps=0.3, max_items=3, hist_sizes=[0, 0, 1, 3, 8])


def one_spec(rng, tag):
    if rng.random() < 0.3:
        spec = gen.gen_spec(rng, SMOOTH, tag=tag)
        spec["solver"].pop("max_step", None)
        return spec
    return gen.gen_ref_spec(rng, REF, tag=tag)[0]


def ops_of(rng, spec):
    n = spec["grid"]["n"]
    ops = ["build", "sim"]
    for j in range(rng.choice([1, 1, 1, 2])):
        if j:
            ops.append(rng.choice(["reset", "sim"]))
        if rng.random() < 0.4:
            ops.append("solve")
        else:
            ops += ["step"] * n
            if rng.random() < 0.3:
                del ops[-rng.randint(1, n):]
            if rng.random() < 0.2:
                ops.insert(rng.randint(2, len(ops)), "poke")
            ops.append("finish")
    return ops


def make(rng, tier):
    k = rng.choice([2, 2, 2, 3])
    same = rng.random() < 0.6
    twin = rng.random() < 0.35
    specs = []
    for i in range(k):
        if i and twin:
            s = copy.deepcopy(specs[0])
            if rng.random() < 0.7:
                for it in s["items"]:      # the same system with other numbers
                    for v in ("x", "r", "p", "q", "a"):
                        if v in it and rng.random() < 0.5:
                            it[v] = it[v] + 1.0
                for e in s["events"]:
                    e["do"] = [[d[0], d[1], d[2] + 1.0] if d[0] in ("add", "aug", "named", "addk", "addh") else d for d in e["do"]]
        else:
            s = one_spec(rng, "s" if same else f"s{i}")
        specs.append(s)
    share_loader = rng.random() < 0.4
    for s in specs:
        if share_loader and s.get("ext") and s["ext"]["loader"] in ("csv",):
            s["ext"]["share"] = "L"
        if rng.random() < 0.4:
            s["share_fn"] = True
        else:
            s.pop("share_fn", None)
        if rng.random() < 0.25:
            s["faults"] = [dict(site=gen.pick(rng, ["post_step", "post_step", "load", "action", "store"]),
                                n=rng.randint(0, 8), kind="raise")]
    if rng.random() < 0.3:
        hist = rng.choice([dict(type="plain", size=1), dict(type="plain", size=3), dict(type="plain", size=3),
                           dict(type="default", size=0)])
        for s in specs:
            s["hist"] = dict(hist)
    if rng.random() < 0.03:
        for s in specs:
            s["jit"] = True
            s["events"] = s["events"][:3]
    if share_loader:
        chunks = [s["ext"].get("chunk") for s in specs if s.get("ext", {}).get("share")]
        for s in specs:
            if s.get("ext", {}).get("share"):
                s["ext"]["chunk"] = chunks[0]
    todo = [ops_of(rng, s) for s in specs]
    plan = []
    left = [list(o) for o in todo]
    burst = rng.choice([1, 1, 2, 5])
    while any(left):
        i = rng.choice([j for j in range(k) if left[j]])
        for _ in range(rng.randint(1, burst)):
            if left[i]:
                plan.append([i, left[i].pop(0)])
    return dict(specs=specs, plan=plan)


class Driver:
    """carries out the operations of one simulation"""

    def __init__(self, h):
        self.h = h
        self.h.keep_frames = True
        self.at = 0
        self.dead = False
        self.results = []
        self.grid = refsim.grid_times(h.spec["grid"])

    def do(self, op):
        h = self.h
        if self.dead:
            if op == "reset" and h.sim is not None:
                self.dead = False
            elif op == "finish" and h.model is not None:
                self.result("broken")
                return
            else:
                return
        try:
            with drive.expected_to_work(), drive.interpreted_events(not h.spec.get("jit")):
                if op == "build":
                    h.build_model()
                elif op == "sim":
                    if h.model is not None:
                        h.build_sim()
                        self.at = 0
                elif h.sim is None:
                    return
                elif op == "solve":
                    h.sim.solve()
                    self.at = len(self.grid) - 1
                    self.result("solved")
                elif op == "step":
                    if self.at + 1 < len(self.grid):
                        self.at += 1
                        h.sim.step_solve(self.grid[self.at - 1], self.grid[self.at] - self.grid[self.at - 1])
                elif op == "poke":
                    it = h.spec["items"][0]
                    v = "k" if it.get("kind") == "total" else "m"
                    h.model.set_variables({h.path(f"{it['tag']}.{v}"): 3.25})
                elif op == "reset":
                    h.sim.reset(self.grid[0])
                    self.at = 0
                elif op == "finish":
                    h.model.create_historian_df()
                    self.result("stepped")
        except drive.InjectedFault:
            self.dead = True

    def result(self, how):
        h = self.h
        t, c = snapshot(h)
        self.results.append((how, t, c, list(h.actions), list(h.ras), [f.copy() for f in h.frames]))


def alone(specs, i, plan, scratch):
    """the same operations of simulation i only, in a process of its own"""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            w = World(dict(specs=specs), scratch)
            h = [w.add(s) for s in specs][i]
            d = Driver(h)
            err = None
            try:
                for j, op in plan:
                    if j == i:
                        d.do(op)
            except Violation as e:
                err = (e.cls, e.detail)
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps((err, d.results, d.dead, h.post_steps, h.fired)))
            code = 0
        except BaseException as e:
            import traceback
            os.write(wfd, pickle.dumps((("harness", "".join(traceback.format_exception(e))), [], True, 0, [])))
        finally:
            os._exit(code)
    os.close(wfd)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def run(sc, ctx):
    specs, plan = sc["specs"], sc["plan"]
    if any(not 0 <= i < len(specs) for i, _ in plan) or len(specs) > 4:
        raise refsim.Reject("malformed")
    tols = []
    for s in specs:
        try:
            tols.append(step_tolerance(dict(s, faults=[])))
        except refsim.Reject:
            raise
    solo = []
    for i in range(len(specs)):
        d = os.path.join(ctx.scratch, f"solo{i}")
        os.mkdir(d)
        solo.append(alone(specs, i, plan, d))
    for err, *_ in solo:
        if err and err[0] == "harness":
            raise RuntimeError(err[1])
    if any(err for err, *_ in solo):
        raise refsim.Reject("a plain run fails")       # another property
    d = os.path.join(ctx.scratch, "all")
    os.mkdir(d)
    w = World(sc, d)
    hs = [w.add(s) for s in specs]
    ds = [Driver(h) for h in hs]
    last = None
    for i, op in plan:
        if last is not None and last != i and hs[i].model is not None and hs[last].model is not None \
                and op in ("step", "solve", "reset"):
            ctx.nontrivial = True
            ctx.probe("switches")
        last = i
        ds[i].do(op)
    ctx.take(w)
    ctx.probe("shared_loader", sum(1 for s in specs if (s.get("ext") or {}).get("share")) > 1)
    ctx.probe("shared_historian", all(s["hist"]["type"] in ("plain", "default") for s in specs))
    ctx.probe("compiled", any(s.get("jit") for s in specs))
    ctx.probe("equal_tags", len({s["tag"] for s in specs}) < len(specs))
    for i, (h, d) in enumerate(zip(hs, ds)):
        _, want, dead, steps, fired = solo[i]
        what = f"simulation {i} of {len(hs)}"
        shared = bool((specs[i].get("ext") or {}).get("share"))
        if fired:
            ctx.probe("failed_ones")
        # with a shared loader, which rows are loaded at a time may differ, and with them the steps
        if not shared and (d.dead != dead or h.post_steps != steps or h.fired != fired):
            raise Violation("steps-differ", f"{what}: {h.post_steps} steps, faults {h.fired}; alone {steps}, {fired}")
        if shared and specs[i].get("faults"):
            continue
        if len(d.results) != len(want):
            raise Violation("results-differ", f"{what}: {[x[0] for x in d.results]} against {[x[0] for x in want]}")
        tol = tols[i] if shared else 0.0
        loose = loose_columns(h) if shared and h.model is not None else ()
        evals = refsim.grid_times(specs[i]["grid"])
        for a, b in zip(d.results, want):
            same_data(a[1:3], b[1:3], what, tol, loose=loose, evals=evals)
            same_actions(a[3], b[3], what, tol)
            if a[4] != b[4]:
                raise Violation("run-after-differ", f"{what}: {a[4]} against {b[4]}")
            if not shared and ([len(f) for f in a[5]] != [len(f) for f in b[5]] or not all(
                    np.array_equal(x, y, equal_nan=True) for x, y in zip(a[5], b[5]))):
                raise Violation("handed-differ", f"{what}: other rows were handed to the historian")
