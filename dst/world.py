"""The simulator: builds systems from a spec, runs them under a decided
schedule with injected faults, and records what they observably did.

One scenario (a JSON value) decides everything: model structure, event
functions, data files and how they are chunked, buffer sizes, how the time axis
is cut into solver calls, at which call of which seam a fault fires, and the
order in which several simulations are advanced.  Nothing here reads a real
clock or an unseeded random source.
"""
import contextlib
import os

from . import env  # noqa: F401
import numpy as np
import pandas as pd
import numba
from numba import njit, objmode

from numerous.engine.system import Subsystem, ItemsStructure
from numerous.engine.system.external_mappings import ExternalMappingElement
from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
from numerous.engine.model import Model
from numerous.engine.simulation import Simulation
from numerous.utils.data_loader import DataLoader, InMemoryDataLoader, CSVDataLoader
from numerous.utils.historian import InMemoryHistorian, LocalHistorian, Historian

from . import models
from .world_actions import apply_action

# ---------------------------------------------------------------- exceptions


class InjectedFault(Exception):
    """raised at a fault point on behalf of the environment"""


class Crash(BaseException):
    """the process dies here: nothing of the program may run afterwards"""


class StepBudget(BaseException):
    """the run used more simulated steps than any legitimate run needs"""


# ------------------------------------------------- compiled post-step callbacks
N_SLOTS = 4
_slot_targets = [None] * N_SLOTS


def _fire_slot(i):
    t = _slot_targets[i]
    if t is not None:
        t()


def _slot0():
    _fire_slot(0)


def _slot1():
    _fire_slot(1)


def _slot2():
    _fire_slot(2)


def _slot3():
    _fire_slot(3)


@njit('void()')
def _ps0():
    with objmode():
        _slot0()


@njit('void()')
def _ps1():
    with objmode():
        _slot1()


@njit('void()')
def _ps2():
    with objmode():
        _slot2()


@njit('void()')
def _ps3():
    with objmode():
        _slot3()


POST_STEP = [_ps0, _ps1, _ps2, _ps3]


class System(Subsystem):
    """top level / nested system; post-step and run-after hooks by name, as a
    user system has them"""

    def __init__(self, tag, external_mappings=None, data_loader=None, sim=None, slot=None):
        self._sim = sim
        if slot is not None:
            self._ps = POST_STEP[slot]
        super().__init__(tag, external_mappings, data_loader,
                         run_after_solve=["_ras"] if sim is not None else None,
                         post_step=["_ps"] if slot is not None else None)

    def _ras(self):
        self._sim.on_run_after(self.tag)


class SubSystem(Subsystem):
    """a nested system with its own run-after and post-step functions"""

    def __init__(self, tag, external_mappings=None, data_loader=None, sim=None, hook=False, slot=None):
        self._sim = sim
        if slot is not None:
            self._ps = POST_STEP[slot]
        super().__init__(tag, external_mappings, data_loader, run_after_solve=["_ras"] if hook else None,
                         post_step=["_ps"] if slot is not None else None)

    def _ras(self):
        self._sim.on_run_after(self.tag)


# ------------------------------------------------------------------ JIT seam
@contextlib.contextmanager
def interpreted_events(enabled=True):
    """event condition/action code is generated by the program under test and
    handed to numba.njit; for speed the simulator may run it uncompiled (same
    generated source).  Restored on exit."""
    if not enabled:
        yield
        return
    real = numba.njit

    def fake(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return real(*a, **k)

    numba.njit = fake
    try:
        yield
    finally:
        numba.njit = real


# ------------------------------------------------------------- data and loaders
def make_frame(f):
    cols = {}
    tcol = f.get("time_col", "time")
    order = f.get("order")
    cols[tcol] = np.array(f["times"], dtype=float)
    for name, vals in f["columns"].items():
        cols[name] = np.array(vals, dtype=float)
    names = order or list(cols)
    return pd.DataFrame({n: cols[n] for n in names})


class SimLoader(DataLoader):
    """wraps a loader of the program (or a plain range loader) and is the
    fault point for data access"""

    def __init__(self, sim, inner, lid):
        super().__init__()
        self.sim = sim
        self.inner = inner
        self.lid = lid
        self.served = {}
        self.time_cols = {}

    def load(self, df_id, t):
        f = self.sim.fault_point("load")
        df = self.inner.load(df_id, t)
        if f is not None and f["kind"] == "empty":
            self.sim.must_raise.append(f"no rows for t={t!r}")
            df = df.iloc[:0]
        elif f is not None and f["kind"] == "stale" and df_id in self.served:
            df, tc = self.served[df_id].copy(), self.time_cols.get(df_id, "time")
            if df[tc].max() < t:
                self.sim.must_raise.append(f"rows up to {df[tc].max()!r} for t={t!r}")
        self.served[df_id] = df.copy()
        self.sim.on_load(self.lid, df_id, t, df)
        return df


class WindowLoader(DataLoader):
    """A user-written loader: serves a window of rows around t, with
    boundaries chosen by the scenario.  Always contains the last row at or
    before t (or the first row) and the next row if there is one."""

    def __init__(self, frames, cuts, back=1):
        super().__init__()
        self.frames = frames
        self.cuts = cuts
        self.back = back

    def load(self, df_id, t):
        df = self.frames[df_id]
        tc = "time" if "time" in df.columns else df.columns[0]
        times = df[tc].to_numpy()
        n = len(df)
        i = int(np.searchsorted(times, t, side="right")) - 1
        i = max(i, 0)
        lo = 0
        hi = n
        for c in self.cuts:
            if c <= i:
                lo = max(lo, c)
            if c > i + 1:
                hi = min(hi, c)
        lo = max(0, lo - self.back)
        return df.iloc[lo:hi].reset_index(drop=True)


class StoreHistorian(Historian):
    """in-memory historian with a bounded buffer that records every store"""

    def __init__(self, sim, max_size):
        super().__init__(max_size)
        self.sim = sim

    def store(self, df):
        self.sim.fault_point("store")
        self.sim.on_store(df)


def frame_rows(df, aliases):
    """rows of a recorded frame, columns time then variables sorted by alias"""
    cols = ["time"] + sorted(aliases)
    if not len(df.df):
        return np.zeros((0, len(cols)))
    return np.column_stack([np.asarray(df[c], dtype=float) for c in cols])


# --------------------------------------------------------------------- one sim
def make_fn(name, body_lines, closure=None):
    """a user function as the program gets it: a python function whose source
    is known (numerous reads the `lines` attribute, or inspect.getsource).
    `closure`: value of the closure variable `k` the source refers to."""
    src = f"def {name}(t, variables):\n" + "".join("    " + ln + "\n" for ln in body_lines)
    if closure is None:
        ns = {}
        exec(src, ns)
        f = ns[name]
    else:
        ns = {}
        outer = "def mk(k):\n" + "".join("    " + ln + "\n" for ln in src.splitlines()) + f"    return {name}\n"
        exec(outer, ns)
        f = ns["mk"](closure)
    f.lines = src
    return f


def helper(val):
    """a function which the source of an event refers to by a closure variable"""
    @numba.njit
    def k(x):
        return x + val
    return k


def action_lines(do, p):
    """source of an event action; returns (lines, closure value or None)"""
    out = []
    clo = None
    for j, (kind, v, val) in enumerate(do):
        k = p(v)
        if kind == "add":
            out.append(f"variables['{k}'] = variables['{k}'] + ({val!r})")
        elif kind == "aug":
            out.append(f"variables['{k}'] += ({val!r})")
        elif kind == "mul":
            out.append(f"variables['{k}'] = variables['{k}'] * ({val!r})")
        elif kind == "set":
            out.append(f"variables['{k}'] = {val!r}")
        elif kind == "time":
            out.append(f"variables['{k}'] = t")
        elif kind == "copy":
            out.append(f"variables['{k}'] = variables['{p(val)}']")
        elif kind == "addk":
            clo = float(val)
            out.append(f"variables['{k}'] = variables['{k}'] + k")
        elif kind == "addh":
            clo = helper(float(val))
            out.append(f"variables['{k}'] = k(variables['{k}'])")
        elif kind == "named":
            out.append(f"nm{j} = '{k}'")
            out.append(f"variables[nm{j}] = variables[nm{j}] + ({val!r})")
        elif kind == "addif":
            amount, cvar, thr = val
            out.append(f"if variables['{p(cvar)}'] > ({thr!r}):")
            out.append(f"    variables['{k}'] = variables['{k}'] + ({amount!r})")
        else:
            raise ValueError(kind)
    return out, clo


class SimHandle:
    def __init__(self, world, idx, spec):
        self.world = world
        self.idx = idx
        self.spec = spec
        self.counts = {}
        self.faults = {}
        for f in spec.get("faults", []):
            self.faults.setdefault(f["site"], {})[f["n"]] = f
        self.fired = []
        self.loads = []
        self.stores = []
        self.actions = []      # (key, t, snapshot)
        self.post_steps = 0
        self.post_step_log = []
        self.ras = []
        self.model = None
        self.sim = None
        self.top = None
        self.on_post = None
        self.hist_file = None
        self.post_log = []     # tags of the systems whose post-step function was called
        self.on_sub_post = None
        self.rows_at_fault = None
        self.keep_frames = False
        self.must_raise = []
        self.files = {}
        self.frames = []

    # ---- seams
    def fault_point(self, site):
        n = self.counts.get(site, 0)
        self.counts[site] = n + 1
        f = self.faults.get(site, {}).get(n)
        if f is not None:
            self.fired.append((site, n, f["kind"]))
            self.rows_at_fault = self.rows_now()
            self.world.log("fault", sim=self.idx, site=site, n=n, fault=f["kind"])
            self.world.stats_fault(site + ":" + f["kind"])
            if f["kind"] == "crash":
                raise Crash(site)
            if f["kind"] in ("raise", "io"):
                raise InjectedFault(f"{site}#{n}")
            return f
        return None

    def rows_now(self):
        """rows recorded so far"""
        m = self.model
        if m is None or getattr(m, "numba_model", None) is None or not hasattr(m.numba_model, "historian_ix"):
            return None
        return int(m.numba_model.historian_ix) + (0 if m.historian_df is None else len(m.historian_df.df))

    def on_load(self, lid, df_id, t, df):
        self.loads.append((lid, float(t), len(df)))
        self.world.log("load", sim=self.idx, lid=lid, t=float(t), rows=len(df))

    def on_store(self, df):
        self.stores.append(len(df.df))
        if self.keep_frames:
            self.frames.append(frame_rows(df, self.aliases()))
        self.world.log("store", sim=self.idx, rows=len(df.df))

    def on_run_after(self, tag):
        rows = None
        if self.model is not None and self.model.historian_df is not None:
            rows = len(self.model.historian_df.df)
        self.ras.append((tag, rows))
        self.world.log("run_after", sim=self.idx, tag=tag, rows=rows)
        self.fault_point("run_after")

    def on_post_step(self):
        self.post_steps += 1
        self.post_log.append("")
        self.world.step()
        if self.on_post is not None:
            self.on_post(self)
        self.fault_point("post_step")

    # ---- building
    def build_system(self):
        spec = self.spec
        items = {}
        slot = self.idx % N_SLOTS if spec.get("post_step", True) else None
        if slot is not None:
            _slot_targets[slot] = self.on_post_step
        loaders = {}
        # spec["late"]: the data of the top system are given to the built model, by attach()
        ext, loader = self.build_ext(None if spec.get("late") else spec.get("ext"), 0)
        top = System(spec["tag"], ext, loader, sim=self, slot=slot)
        subs = {"": top}
        sets = {}
        for j, s in enumerate(spec.get("subs", [])):
            if s.get("set"):
                sets[s["tag"]] = []
                continue
            e2, l2 = self.build_ext(s.get("ext"), j + 1)
            subs[s["tag"]] = SubSystem(s["tag"], e2, l2, sim=self, hook=s.get("hook", False),
                                       slot=self.sub_slot(s))
        for s in spec["items"]:
            it = models.KINDS[s.get("kind", "cell")](s)
            items[s["tag"]] = it
            if s.get("sub", "") in sets:
                sets[s["sub"]].append(it)
            else:
                subs[s.get("sub", "")].register_item(it)
        self.items = items
        self.subs = subs
        for dst, src in spec.get("maps", []):
            self.var(dst).add_mapping(self.var(src))
        for dst, srcs in spec.get("sums", []):
            for src in srcs:
                self.var(dst).add_sum_mapping(self.var(src))
        for s in reversed(spec.get("subs", [])):
            parent = subs[s.get("parent", "")]
            if s.get("set"):
                if sets[s["tag"]]:
                    parent.register_items(sets[s["tag"]], tag=s["tag"], structure=ItemsStructure.SET)
            else:
                parent.register_item(subs[s["tag"]])
        for e in spec.get("events", []):
            on = e.get("on")
            if on is None:
                continue
            host = subs[on[1:]] if on.startswith("@") else items[on]
            self.add_event(host, e)
        self.top = top
        return top

    def sub_slot(self, s):
        """(only in worlds with one simulation)"""
        slot = s.get("ps")
        if slot is None:
            return None
        assert 0 < slot < N_SLOTS and self.idx == 0

        def call():
            self.post_log.append(s["tag"])
            if self.on_sub_post is not None:
                self.on_sub_post(self)
        _slot_targets[slot] = call
        return slot

    def var(self, name):
        tag, v = name.split(".")
        return getattr(getattr(self.items[tag], "t1"), v)

    def _chain(self, sub):
        bysub = {x["tag"]: x for x in self.spec.get("subs", [])}
        chain = []
        while sub:
            chain.append(("SET_" if bysub[sub].get("set") else "") + sub)
            sub = bysub[sub].get("parent", "")
        return chain[::-1]

    def path(self, name):
        tag, v = name.split(".")
        s = next(i for i in self.spec["items"] if i["tag"] == tag)
        return ".".join([self.spec["tag"]] + self._chain(s.get("sub", "")) + [tag, "t1", v])

    def event_path(self, on):
        """how the event functions of a host name a variable"""
        if on is None:
            return self.path
        if on.startswith("@"):
            pre = ".".join([self.spec["tag"]] + self._chain(on[1:])) + "."
        else:
            pre = None

        def p(name):
            if pre is None:
                tag, v = name.split(".")
                assert tag == on, "an event of an item knows the variables of the item"
                return "t1." + v
            full = self.path(name)
            assert full.startswith(pre)
            return full[len(pre):]
        return p

    def build_ext(self, ext, lid):
        if not ext:
            return None, None
        els = []
        frames = {}
        for i, f in enumerate(ext["files"]):
            df = make_frame(f)
            if ext["loader"] == "csv":
                fid = os.path.join(self.world.scratch, f"d{self.idx}_{lid}_{i}.csv")
                with self.world.real_fs():
                    df.to_csv(fid, index=bool(ext.get("index_col", False)))
                    if "torn" in f:
                        os.truncate(fid, max(0, os.path.getsize(fid) - f["torn"]))
            else:
                fid = f"mem{i}"
            frames[fid] = df
            aliases = {self.path(v): (c, InterpolationType.LINEAR if kind == "lin" else InterpolationType.PIESEWISE)
                       for v, (c, kind) in f["map"].items()}
            els.append(ExternalMappingElement(fid, f.get("time_col", "time"), f.get("start", 0), f.get("mult", 1),
                                              aliases))
        share = ext.get("share")
        if share is not None and share in self.world.loaders:
            inner = self.world.loaders[share]
            inner_frames = getattr(inner, "frames", None)
            if inner_frames is not None:
                inner_frames.update(frames)
        elif ext["loader"] == "csv":
            inner = CSVDataLoader(chunksize=ext.get("chunk", 1000))
        elif ext["loader"] == "mem":
            inner = InMemoryDataLoader(frames[list(frames)[0]])
        else:
            inner = WindowLoader(frames, ext.get("cuts", []), ext.get("back", 1))
        if share is not None:
            self.world.loaders[share] = inner
        loader = SimLoader(self, inner, lid)
        loader.time_cols.update({e.data_frame_id: e.index_to_timestep_mapping for e in els})
        self.files.update({(lid, i): e.data_frame_id for i, e in enumerate(els)})
        return els, loader

    def action(self, e):
        p = self.event_path(e.get("on"))
        name = e.get("fname") or "a_" + "".join(c if c.isalnum() else "_" for c in e["key"])
        lines, clo = action_lines(e["do"], p)
        if not e.get("external"):
            if self.spec.get("share_fn") and clo is None:
                # one function object used for several events, by several systems
                k = (name, tuple(lines))
                if k not in self.world.fns:
                    self.world.fns[k] = make_fn(name, lines, clo)
                return self.world.fns[k]
            return make_fn(name, lines, clo)
        handle = self

        index = next(i for i, x in enumerate(self.spec["events"]) if x is e)

        def act(t, variables):
            handle.actions.append((index, float(t)))
            handle.world.log("action", sim=handle.idx, event=index, t=float(t))
            handle.fault_point("action")

            def put(v, x):
                variables[p(v)] = x
            apply_action(e["do"], t, lambda v: variables[p(v)], put)
        return act

    def condition(self, e):
        p = self.event_path(e.get("on"))
        name = e.get("cname") or "c_" + "".join(c if c.isalnum() else "_" for c in e["key"])
        v, thr = e["cond"][:2]
        val = "t" if v == "t" else f"variables['{p(v)}']"
        if len(e["cond"]) > 2:
            return make_fn(name, [f"return {val} - k"], float(thr))
        return make_fn(name, [f"return {val} - ({thr!r})"])

    def add_event(self, host, e):
        a = self.action(e)
        if e["type"] == "time":
            kw = dict(timestamps=[float(x) for x in e["at"]]) if "at" in e else dict(periodicity=float(e["period"]))
            host.add_timestamp_event(e["key"], a, is_external=bool(e.get("external")), **kw)
        else:
            host.add_event(e["key"], self.condition(e), a, direction=e.get("dir", -1),
                           is_external=bool(e.get("external")))

    def build_model(self):
        spec = self.spec
        top = self.build_system()
        h = spec.get("hist", {"type": "mem", "size": 0})
        if h["type"] == "local":
            self.hist_path = self.hist_file or os.path.join(self.world.scratch, f"h{self.idx}.csv")
            hist = LocalHistorian(self.hist_path, h["size"])
        elif h["type"] == "inmem":
            hist = InMemoryHistorian()
        elif h["type"] == "plain":      # the base class, one object for several models
            hist = self.world.shared_hists.setdefault(h["size"], Historian(h["size"]))
        else:
            hist = StoreHistorian(self, h["size"])
        self.hist = hist
        kw = {}
        if spec.get("level"):
            kw["logger_level"] = models.LEVELS[spec["level"]]
        if spec.get("globals"):
            kw["global_variables"] = [tuple(g) for g in spec["globals"]]
        if h["type"] != "default":
            kw["historian"] = hist
        self.model = Model(top, use_llvm=False, **kw)
        for e in spec.get("events", []):
            if e.get("on") is None:
                self.add_event(self.model, e)
        return self.model

    def build_sim(self, **over):
        g = dict(self.spec["grid"])
        g.update(over)
        self.sim = Simulation(self.model, t_start=g["t0"], t_stop=g["t1"], num=g["n"],
                              **self.spec.get("solver", {}))
        return self.sim

    def attach(self, ext, lid=0):
        els, loader = self.build_ext(ext, lid)
        self.model.set_external_mappings(els, loader)

    # ---- observation
    def history(self):
        """list of rows [time, var...], columns sorted by alias"""
        df = None if self.model is None else self.model.historian_df
        if df is None:
            return [], np.zeros((0, 0))
        return ["time"] + sorted(self.aliases()), frame_rows(df, self.aliases())

    def history_times(self):
        df = None if self.model is None else self.model.historian_df
        if df is None:
            return np.zeros(0), None
        return np.asarray(df["time"], dtype=float), df

    def aliases(self):
        return [a for a in self.model.aliases if a.startswith(self.spec["tag"] + ".")]


class World:
    def __init__(self, scenario, scratch, budget=200000):
        self.scenario = scenario
        self.scratch = scratch
        self.budget = budget
        self.steps = 0
        self.events = []
        self.fault_counts = {}
        self.sims = []
        self.loaders = {}
        self.shared_hists = {}
        self.fns = {}

    def log(self, kind, **kw):
        self.events.append((len(self.events), kind, tuple(sorted(kw.items()))))

    def stats_fault(self, k):
        self.fault_counts[k] = self.fault_counts.get(k, 0) + 1

    def step(self):
        self.steps += 1
        if self.steps > self.budget:
            raise StepBudget()

    @contextlib.contextmanager
    def real_fs(self):
        yield

    def add(self, spec):
        h = SimHandle(self, len(self.sims), spec)
        self.sims.append(h)
        return h
