"""Seeded search: runs scenarios of a property, minimises and replays failures.

Every scenario runs in its own process, forked from a parent which has loaded
and warmed up the program but has run no scenario, so that a scenario is a pure
function of its JSON value.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import env
from .oracles import Violation
from .refsim import Reject

CPU_SOFT = float(os.environ.get("DST_CPU_SOFT", "20"))   # s of CPU; then the run is repeated and counted
WALL_S = float(os.environ.get("DST_WALL", "120"))         # s; a scenario takes a fraction of a second
CALL_BUDGET = 6_000_000                                  # function starts a legitimate run never needs


class Hang(BaseException):
    pass


class Livelock(BaseException):
    pass


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def scenario_rng(pid, seed, tier, index):
    return random.Random(f"{pid}/{seed}/{index}")


class Seeded:
    """a scenario that is still to be generated from its seed"""

    def __init__(self, pid, seed, tier, index):
        self.pid, self.seed, self.tier, self.index = pid, seed, tier, index

    def rng(self):
        return scenario_rng(self.pid, self.seed, self.tier, self.index)


# ------------------------------------------------------------------ one scenario
class Ctx:
    """what a property's run() gets: a scratch directory and counters"""

    def __init__(self, scratch):
        self.scratch = scratch
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.runs = 0
        self.sim_time = 0.0
        self.trace = hashlib.sha256()
        self.nontrivial = False
        self.log = []

    def note(self, *what):
        """part of the observable behaviour that identifies this execution"""
        self.trace.update(repr(what).encode())

    def probe(self, name, n=1):
        if n:
            self.probes[name] += int(n)

    def take(self, world):
        """account for a world after its runs"""
        self.faults.update(world.fault_counts)
        for h in world.sims:
            self.runs += 1
            rows = 0
            try:
                t, _ = h.history_times()
                if len(t):
                    self.sim_time += float(t[-1] - t[0])
                    rows = len(t)
            except Exception:
                pass
            self.note(rows, h.post_steps, h.fired, h.loads, h.stores, h.actions, h.ras)
        self.note([e[1:] for e in world.events])
        self.log.extend(world.events[:200])


def where(exc):
    """innermost frame of the program under test in a traceback"""
    tb = exc.__traceback__
    place = None
    inner = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        inner = f
        if f.startswith(env.REPO):
            place = os.path.relpath(f, env.REPO)
        tb = tb.tb_next
    return place, inner


def run_scenario(prop, scenario, scratch, counted=False):
    """in the forked child: returns a result dict"""
    ctx = Ctx(scratch)
    res = dict(status="ok")

    def on_cpu(*a):
        raise Hang()

    if isinstance(scenario, Seeded):
        signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, 60)
        try:
            scenario = prop.make(scenario.rng(), scenario.tier)
            res["scenario"] = scenario
        except Hang:
            return dict(status="rejected", detail="no scenario in 60 s", runs=0, sim_time=0.0, faults={}, probes={},
                        trace="", nontrivial=False, log=[])
        except Reject as e:
            return dict(status="rejected", detail=str(e), runs=0, sim_time=0.0, faults={}, probes={}, trace="",
                        nontrivial=False, log=[])
        except Exception as e:
            return dict(status="error", detail="".join(traceback.format_exception(e))[-4000:], runs=0, sim_time=0.0,
                        faults={}, probes={}, trace="", nontrivial=False, log=[])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    mon = None
    if counted:
        mon = sys.monitoring
        tool = mon.PROFILER_ID
        mon.use_tool_id(tool, "dst")
        left = [CALL_BUDGET]

        def on_start(code, off):
            left[0] -= 1
            if left[0] < 0:
                left[0] = CALL_BUDGET
                raise Livelock()
        mon.register_callback(tool, mon.events.PY_START, on_start)
        mon.set_events(tool, mon.events.PY_START)
    else:
        signal.signal(signal.SIGVTALRM, on_cpu)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SOFT)
    try:
        prop.run(scenario, ctx)
    except Violation as e:
        res.update(status="violation", cls=e.cls, detail=e.detail)
    except Reject as e:
        res.update(status="invalid", detail=str(e))
    except Hang:
        res.update(status="slow")
    except Livelock:
        res.update(status="violation", cls="livelock",
                   detail=f"the run made no end within {CALL_BUDGET} function calls")
    except BaseException as e:
        if type(e).__name__ == "StepBudget":
            res.update(status="violation", cls="livelock", detail="more simulated steps than any legitimate run needs")
        else:
            res.update(status="error", detail="".join(traceback.format_exception(e))[-4000:])
    finally:
        if counted:
            mon.set_events(mon.PROFILER_ID, 0)
        else:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    res.update(runs=ctx.runs, sim_time=ctx.sim_time, faults=dict(ctx.faults), probes=dict(ctx.probes),
               trace=ctx.trace.hexdigest(), nontrivial=ctx.nontrivial, log=ctx.log[:120])
    return res


class Pool:
    """forks one process per scenario, at most `n` at a time"""

    def __init__(self, prop, n):
        self.prop = prop
        self.n = n
        self.live = {}
        base = env.scratch_root()
        self.dir = tempfile.mkdtemp(prefix="dst-", dir=base)
        self.serial = 0
        self.recount = True

    def start(self, key, scenario, counted=False, retry=0):
        r, w = os.pipe()
        self.serial += 1
        scratch = os.path.join(self.dir, str(self.serial))
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.mkdir(scratch)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                # whatever happens, the process ends
                resource.setrlimit(resource.RLIMIT_CPU, (400, 420))
                res = run_scenario(self.prop, scenario, scratch, counted)
                data = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(struct.pack("<Q", len(data)) + data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = dict(pid=pid, key=key, scenario=scenario, buf=b"", counted=counted, scratch=scratch,
                            retry=retry, since=time.monotonic())

    def collect(self, timeout=None):
        """results of finished scenarios: list of (key, scenario, result)"""
        out = []
        if not self.live:
            return out
        ready, _, _ = select.select(list(self.live), [], [], timeout)
        now = time.monotonic()
        for r, job in list(self.live.items()):
            if r not in ready and now - job["since"] > WALL_S:
                # stuck without using processor time: once more, then give up
                os.kill(job["pid"], signal.SIGKILL)
                os.waitpid(job["pid"], 0)
                os.close(r)
                del self.live[r]
                shutil.rmtree(job["scratch"], ignore_errors=True)
                if job["retry"] < 2:
                    self.start(job["key"], job["scenario"], job["counted"], job["retry"] + 1)
                else:
                    out.append((job["key"], job["scenario"],
                                dict(status="error", detail="the process is stuck", runs=0, sim_time=0.0, faults={},
                                     probes={}, trace="", nontrivial=False, log=[])))
        for r in ready:
            d = os.read(r, 1 << 20)
            job = self.live[r]
            if d:
                job["buf"] += d
                continue
            os.close(r)
            del self.live[r]
            _, st = os.waitpid(job["pid"], 0)
            shutil.rmtree(job["scratch"], ignore_errors=True)
            buf = job["buf"]
            if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
                res = pickle.loads(buf[8:])
            else:
                res = dict(status="error", detail=f"worker ended with wait status {st}", runs=0, sim_time=0.0,
                           faults={}, probes={}, trace="", nontrivial=False, log=[])
            if res["status"] == "slow" and not job["counted"] and self.recount:
                self.start(job["key"], job["scenario"], counted=True)
                continue
            out.append((job["key"], res.get("scenario", job["scenario"]), res))
        return out

    def map(self, jobs, deadline=None):
        """jobs: iterable of (key, scenario); yields (key, scenario, result)"""
        it = iter(jobs)
        done = False
        while True:
            while not done and len(self.live) < self.n:
                if deadline is not None and time.monotonic() > deadline:
                    done = True
                    break
                try:
                    key, sc = next(it)
                except StopIteration:
                    done = True
                    break
                self.start(key, sc)
            if not self.live:
                return
            yield from self.collect(5.0)

    def stop(self):
        for r, job in list(self.live.items()):
            try:
                os.kill(job["pid"], signal.SIGKILL)
                os.waitpid(job["pid"], 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            os.close(r)
        self.live.clear()

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------- minimising
def simpler_numbers(x):
    out = []
    if isinstance(x, bool) or x is None:
        return out
    if isinstance(x, int):
        for c in (0, 1, x // 2):
            if c != x and abs(c) < abs(x):
                out.append(c)
    elif isinstance(x, float):
        for c in (0.0, 1.0, float(int(x))):
            if c != x and abs(c) <= abs(x):
                out.append(c)
    return out


def shrinks(v, path=()):
    """candidate edits, big ones first: (path, replacement or DELETE)"""
    out = []
    if isinstance(v, list):
        n = len(v)
        if n > 3:
            out.append((path, v[:n // 2]))
            out.append((path, v[n // 2:]))
        for i in range(n):
            out.append((path, v[:i] + v[i + 1:]))
        for i in range(n):
            out += shrinks(v[i], path + (i,))
    elif isinstance(v, dict):
        for k in v:
            out.append((path, {a: b for a, b in v.items() if a != k}))
        for k in v:
            out += shrinks(v[k], path + (k,))
    else:
        out += [(path, c) for c in simpler_numbers(v)]
    return out


def edit(v, path, new):
    if not path:
        return new
    if isinstance(v, list):
        return [edit(x, path[1:], new) if i == path[0] else x for i, x in enumerate(v)]
    return {k: (edit(x, path[1:], new) if k == path[0] else x) for k, x in v.items()}


def size(v):
    return len(json.dumps(v))


def minimise(pool, prop, scenario, cls, max_runs=500, max_s=60.0):
    """greedy: keep any smaller scenario that fails in the same way"""
    t_end = time.monotonic() + max_s
    runs = 0
    best = scenario
    while runs < max_runs and time.monotonic() < t_end:
        cands = []
        seen = set()
        for path, new in sorted(shrinks(best), key=lambda c: len(c[0])):
            c = edit(best, path, new)
            if hasattr(prop, "fix"):
                c = prop.fix(c)
                if c is None:
                    continue
            k = json.dumps(c, sort_keys=True)
            if k in seen or size(c) > size(best):
                continue
            if size(c) == size(best) and c == best:
                continue
            seen.add(k)
            cands.append(c)
        improved = None
        cands = cands[:max_runs - runs]
        pool.recount = cls == "livelock"
        for key, c, res in pool.map(((i, c) for i, c in enumerate(cands)), deadline=t_end):
            runs += 1
            if res["status"] == "violation" and res["cls"] == cls:
                if improved is None or key < improved:
                    improved = key
                    pool.stop()
                    break
        if improved is None:
            break
        best = cands[improved]
    pool.recount = True
    return best, runs


# ------------------------------------------------------------------------ check
def warm_up(prop):
    """load and compile everything that every scenario needs"""
    from . import warm

    def late(*a):
        raise Hang()
    signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        warm.warm_up()
        if hasattr(prop, "warm_up"):
            prop.warm_up()
    except Hang:
        pass      # a broken program is for the scenarios to report
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def known_findings():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def replay_file(pid, path, quiet=False):
    prop = load_prop(pid)
    with open(path) as f:
        rec = json.load(f)
    warm_up(prop)
    pool = Pool(prop, 1)
    try:
        res = list(pool.map([(0, rec["scenario"])]))[0][2]
    finally:
        pool.close()
    want = rec.get("violation", {}).get("class")
    if res["status"] == "violation":
        print(f"{res['cls']}: {res['detail']}")
        if not quiet and want and res["cls"] != want:
            print(f"(recorded as {want})")
        print(f"VIOLATION property={pid} replay={path}")
        return 1, res
    if res["status"] == "ok":
        print("the property held in this replay")
        return 0, res
    print(res)
    return 2, res


def run_check(pid, tier, seed, runs=None, workers=None, verbose=False, stop_early=True):
    t_start = time.monotonic()
    prop = load_prop(pid)
    n = runs or prop.RUNS[tier]
    cap = prop.CAP_S[tier] if hasattr(prop, "CAP_S") else (420.0 if tier == "quick" else 3 * 3600.0)
    deadline = t_start + cap
    workers = workers or int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    warm_up(prop)
    t_run = time.monotonic()
    import gc
    gc.collect()
    gc.freeze()
    pool = Pool(prop, workers)
    tot = collections.Counter()
    faults, probes, classes = collections.Counter(), collections.Counter(), {}
    traces = set()
    nontrivial = set()
    samples = []
    sim_time = 0.0
    errors = []
    dup = {}
    first = {}

    def jobs():
        for i in range(n):
            sc = Seeded(pid, seed, tier, i)
            yield i, sc
            if i % 25 == 3 and not getattr(prop, "NO_DUP", False):
                # the same scenario once more: must be the same execution
                yield ("dup", i), sc

    known_lines = []
    try:
        # findings which are known and not repaired: run their exact history
        kf = [k for k in known_findings() if k["property"] == pid and k.get("status") == "open"]
        for key, sc, res in pool.map([(k["id"], k["scenario"]) for k in kf]):
            k = next(x for x in kf if x["id"] == key)
            if res["status"] == "violation" and res["cls"] == k["class"]:
                known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
            elif res["status"] == "violation":
                classes.setdefault(res["cls"], (-1, sc, res))
            tot["known"] += 1
        for key, sc, res in pool.map(jobs(), deadline):
            isdup = isinstance(key, tuple)
            i = key[1] if isdup else key
            if res["status"] == "error":
                errors.append((i, res["detail"]))
                if len(errors) > 20:
                    pool.stop()
                    break
                continue
            if i in first:
                if first.pop(i) != res["trace"]:
                    tot["determinism_mismatch"] += 1
                else:
                    tot["determinism_ok"] += 1
            elif i % 25 == 3:
                first[i] = res["trace"]
            if isdup:
                continue
            if res["status"] == "rejected":
                tot["rejected"] += 1
                continue
            if len(samples) < 2:
                samples.append(dict(index=i, scenario=sc))
            tot["scenarios"] += 1
            tot[res["status"]] += 1
            tot["runs"] += res["runs"]
            sim_time += res["sim_time"]
            faults.update(res["faults"])
            probes.update(res["probes"])
            traces.add(res["trace"])
            if res["nontrivial"]:
                nontrivial.add(res["trace"])
            if res["status"] == "violation":
                if verbose:
                    print(i, res["cls"], res["detail"][:600])
                old = classes.get(res["cls"])
                if old is None or i < old[0]:
                    classes[res["cls"]] = (i, sc, res)
                if stop_early and tot["violation"] >= 6:
                    pool.stop()
                    break
        wall_run = time.monotonic() - t_run

        # property specific work that is not one scenario per process
        extra = {}
        if hasattr(prop, "extra"):
            for cls, sc, detail in prop.extra(pool, tier, seed, extra, deadline):
                classes.setdefault(cls, (-2, sc, dict(cls=cls, detail=detail, log=[])))
                tot["violation"] += 1

        lines = []
        for cls, (i, sc, res) in sorted(classes.items(), key=lambda kv: kv[1][0])[:3]:
            small, nr = sc, 0
            if i != -2:
                budget = 60.0 if tier == "quick" else 300.0
                small, nr = minimise(pool, prop, sc, cls, max_s=budget)
                final = list(pool.map([(0, small)]))[0][2]
                if final["status"] == "violation":
                    res = final
            os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
            name = "".join(c if c.isalnum() else "-" for c in cls)[:40]
            path = os.path.join(env.VERIF, "replays", f"{pid}-{seed}-{max(i, 0)}-{name}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, index=i, scenario=small,
                               violation={"class": res["cls"], "detail": res["detail"]},
                               minimised_from_bytes=size(sc), bytes=size(small), minimiser_runs=nr,
                               trace=[[a, b, list(map(list, c))] for a, b, c in res.get("log", [])]),
                          f, indent=1, default=str)
            print(f"{res['cls']}: {res['detail'][:1000]}")
            lines.append(f"VIOLATION property={pid} replay={path}")
    finally:
        pool.close()
    wall = time.monotonic() - t_start
    hours = max(wall_run, 1e-9) / 3600
    cov = dict(
        evaluations=tot["runs"],
        distinct_nontrivial=len(nontrivial),
        rule=prop.RULE + " Two executions are distinct if their event logs (seam calls, faults, stores, loads, actions, "
                         "recorded rows) differ.",
        samples=samples,
        scenarios=tot["scenarios"], scenarios_asked_for=n, scenarios_invalid=tot["invalid"], seeds_without_scenario=tot["rejected"],
        distinct_executions=len(traces),
        simulated_runs_per_hour=int(tot["runs"] / hours), seeds_per_hour=int(tot["scenarios"] / hours),
        simulated_time=round(sim_time, 3),
        faults_injected=dict(sorted(faults.items())),
        probes_reached=dict(sorted(probes.items())),
        same_seed_twice=dict(identical=tot["determinism_ok"], different=tot["determinism_mismatch"]),
        known_findings_checked=tot["known"],
        ran_real=REAL, ran_stub=getattr(prop, "STUB", STUB), workers=workers,
    )
    cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.LEVEL, coverage=cov, wall_s=round(wall, 2),
              violations=tot["violation"], assumptions=getattr(prop, "ASSUMPTIONS", []) + ASSUMPTIONS)
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in known_lines:
        print(ln)
    print(f"{pid} {tier} seed={seed}: {tot['scenarios']} scenarios, {tot['runs']} runs, {len(nontrivial)} distinct "
          f"non-trivial, {tot['invalid']} invalid, {tot['violation']} violations, {len(errors)} errors, "
          f"determinism {tot['determinism_ok']}/{tot['determinism_ok'] + tot['determinism_mismatch']}, {wall:.1f} s")
    if lines:
        for ln in lines:
            print(ln)
        return 1
    if errors:
        for i, e in errors[:3]:
            print(f"harness error in scenario {i}:\n{e}")
        return 2
    if tot["scenarios"] == 0:
        print("nothing was explored")
        return 2
    return 0


REAL = ["model assembly, equation parsing and lowering (python target)", "simulation and engine solver interface",
        "events", "external mappings", "data loaders", "historians", "third-party numerous-solver (interpreted)"]
STUB = ["LLVM/numba compilation of event functions (the generated source runs interpreted, unless the probe "
        "'compiled' counts it)", "clock: none is read by the code under test"]
ASSUMPTIONS = ["use_llvm=False (the LLVM target cannot be built in this sandbox)",
               "samples schedules and faults; does not enumerate them"]
