"""Executable reference model: what a run must observably do.

Event driven, for systems whose derivatives are constant between two
breakpoints (evaluation time, time event, state event, change of external
data), so that the exact solution does not depend on how a solver steps.  It
shares no code with the program: it works on the scenario spec.

`simulate(spec)` returns a Ref; it raises Reject when the scenario is outside
the family or too close to a tie for the outcome to be determined (a crossing
within a tolerance of another event, events of different hosts which do not
commute, ...), so that a generator can discard it.
"""
import itertools
import math

from . import models
from .world_actions import apply_action

SAME = 1e-9


class Reject(Exception):
    pass


class Row:
    __slots__ = ("t", "kind", "v", "loose", "fired")

    def __init__(self, t, kind, v, loose, fired=()):
        self.t = t          # time
        self.kind = kind    # init | eval | event | state
        self.v = v          # (tag, var) -> value
        self.loose = loose  # (tag, var) not determined in this row
        self.fired = fired


class Ref:
    def __init__(self):
        self.rows = []
        self.firings = []   # (t, event index, external, type)
        self.final = None
        self.crossings = 0


def interp(times, vals, t, kind):
    n = len(times)
    if kind == "lin":
        if t <= times[0]:
            return vals[0]
        if t >= times[-1]:
            return vals[-1]
        for i in range(n - 1):
            if times[i] <= t <= times[i + 1]:
                if times[i + 1] == times[i]:
                    return vals[i + 1]
                w = (t - times[i]) / (times[i + 1] - times[i])
                return vals[i] + w * (vals[i + 1] - vals[i])
    j = -1
    for i in range(n):
        if times[i] <= t + 1e-12:
            j = i
    return vals[j]


def file_series(f):
    """name -> (times, values, kind) as mapped to a variable, in simulation time"""
    mult = f.get("mult", 1)
    s = f.get("start", 0)
    times = [x * mult for x in f["times"]][s:]
    out = {}
    for var, (col, kind) in f["map"].items():
        out[var] = (times, list(f["columns"][col])[s:], kind)
    return out


def all_ext(spec):
    out = {}
    for ext in [spec.get("ext")] + [s.get("ext") for s in spec.get("subs", [])]:
        if ext:
            for f in ext["files"]:
                for var, ser in file_series(f).items():
                    out.setdefault(var, ser)
    return out


def grid_times(g):
    if "cuts" in g:
        return list(g["cuts"])
    n = g["n"]
    t0, t1 = g["t0"], g["t1"]
    # the evaluation times a user asks for (numpy.linspace semantics)
    step = (t1 - t0) / n
    ts = [t0 + i * step for i in range(n)] + [t1]
    return ts


def event_times(e, t0, t1):
    if "at" in e:
        return sorted(x for x in e["at"] if t0 - SAME <= x <= t1 + SAME)
    p = e["period"]
    k = max(0, math.ceil((t0 - SAME) / p))
    out = []
    while k * p <= t1 + SAME:
        out.append(k * p)
        k += 1
    return out


class State:
    def __init__(self, spec):
        self.kind = {}
        self.V = {}
        for s in spec["items"]:
            k = s.get("kind", "cell")
            self.kind[s["tag"]] = k
            dflt = models.DEFAULTS.get(k, {})
            for v in models.VARS[k]:
                self.V[(s["tag"], v)] = float(s.get(v, dflt.get(v, 0.0)))
        self.maps = [(tuple(d.split(".")), tuple(x.split("."))) for d, x in spec.get("maps", [])]
        self.sums = [(tuple(d.split(".")), [tuple(x.split(".")) for x in xs]) for d, xs in spec.get("sums", [])]
        self.order = [s["tag"] for s in spec["items"]]
        self.depth = len(self.maps) + len(self.sums) + 1
        self.byitem = {}
        for (tag, v) in self.V:
            self.byitem.setdefault(tag, []).append(v)

    def eval(self, t):
        V = self.V
        for _ in range(self.depth):
            for d, s in self.maps:
                V[d] = V[s]
            for d, ss in self.sums:
                V[d] = sum(V[x] for x in ss)
            changed = False
            for tag in self.order:
                v = {k: V[(tag, k)] for k in self.byitem[tag]}
                models.evaluate(self.kind[tag], v, t)
                for k, x in v.items():
                    if V[(tag, k)] != x:
                        V[(tag, k)] = x
                        changed = True
            if not changed:
                break

    def deriv(self):
        out = {}
        for tag in self.order:
            v = {k: self.V[(tag, k)] for k in self.byitem[tag]}
            for k, x in models.derivative(self.kind[tag], v).items():
                out[(tag, k)] = x
        return out


def influences(spec, seeds):
    """variables whose value depends on the seed variables (algebraically)"""
    dep = set(seeds)
    maps = [(tuple(d.split(".")), [tuple(x.split("."))]) for d, x in spec.get("maps", [])]
    maps += [(tuple(d.split(".")), [tuple(x.split(".")) for x in xs]) for d, xs in spec.get("sums", [])]
    kinds = {s["tag"]: s.get("kind", "cell") for s in spec["items"]}
    pars = {s["tag"]: s for s in spec["items"]}
    while True:
        n = len(dep)
        for d, ss in maps:
            if any(s in dep for s in ss):
                dep.add(d)
        for tag, k in kinds.items():
            if k in ("cell", "scell"):
                if (tag, "u") in dep or (tag, "x") in dep or (tag, "p") in dep or (tag, "q") in dep:
                    if (tag, "u") in dep and pars[tag].get("q", 0.0) == 0.0 and not ({(tag, "x"), (tag, "p"),
                                                                                   (tag, "q")} & dep):
                        pass
                    else:
                        dep.add((tag, "y"))
                if k == "cell" and ((tag, "y") in dep or (tag, "w") in dep or (tag, "c") in dep):
                    dep.add((tag, "z"))
                if (tag, "u") in dep and pars[tag].get("g", 0.0) != 0.0:
                    dep.add((tag, "x"))
                    dep.add((tag, "y"))
                    if k == "cell":
                        dep.add((tag, "z"))
            elif k == "static":
                if {(tag, "u"), (tag, "p"), (tag, "q")} & dep:
                    dep.add((tag, "y"))
                if (tag, "v") in dep:
                    dep.add((tag, "yv"))
            elif k == "total":
                if {(tag, "s"), (tag, "k")} & dep:
                    dep.add((tag, "s2"))
            elif k == "branch":
                if {(tag, "v"), (tag, "p"), (tag, "q"), (tag, "lev")} & dep:
                    dep.add((tag, "y"))
            if {(tag, "n"), (tag, "m"), (tag, "tl")} & dep and k != "total":
                dep.add((tag, "nn"))
        if len(dep) == n:
            return dep


def loose_vars(spec):
    """variables that depend on data which change between evaluation times: between those they show the value of the
    last solver step"""
    g = spec["grid"]
    evals = grid_times(g)
    off_grid = set()
    for name, (times, vals, kind) in all_ext(spec).items():
        on_grid = kind == "pw" and all(any(abs(x - y) < SAME for y in evals) or x < g["t0"] or x > g["t1"] for x in times)
        if not on_grid:
            off_grid.add(tuple(name.split(".")))
    return influences(spec, off_grid) if off_grid else set()


def host_of(e):
    return e.get("on") or ""


def simulate(spec, max_events=400, tol=2e-3):
    """the outcome of the spec; with state events it must not depend on the
    solver's habit of taking a crossing a microsecond early"""
    ref = _simulate(spec, max_events, tol, 0.0)
    if ref.crossings:
        alt = _simulate(spec, max_events, tol, 1e-6)
        if [x[1:] for x in ref.firings] != [x[1:] for x in alt.firings] or len(ref.rows) != len(alt.rows):
            raise Reject("sensitive to the time of a crossing")
        for a, b in zip(ref.rows, alt.rows):
            if abs(a.t - b.t) > 4e-6 * (1 + abs(a.t)):
                raise Reject("sensitive to the time of a crossing")
            for k in a.v:
                if abs(a.v[k] - b.v[k]) > 5e-5 * (1 + abs(a.v[k])):
                    raise Reject("sensitive to the time of a crossing")
    return ref


def _simulate(spec, max_events, tol, early):
    """tol: half width of the time window in which a crossing counts as a tie"""
    ref = Ref()
    S = State(spec)
    V = S.V
    g = spec["grid"]
    t0, t1 = g["t0"], g["t1"]
    evals = grid_times(g)
    ext = all_ext(spec)
    extvars = {tuple(k.split(".")): v for k, v in ext.items()}
    for s in spec["items"]:
        if s.get("kind", "cell") == "pair" or s.get("d", 0.0) != 0.0:
            raise Reject("not piecewise linear")

    mapped = {tuple(d.split(".")) for d, _ in spec.get("maps", [])} | \
             {tuple(d.split(".")) for d, _ in spec.get("sums", [])} | set(extvars)

    # external data: exact only if it changes at evaluation times, or if nothing integrates it
    held = set(extvars)   # variables that, between two solver steps, show the last value written
    loose_set = loose_vars(spec)
    for tag, k in S.kind.items():
        if k in ("cell", "scell") and (tag, "x") in loose_set:
            raise Reject("integral of off-grid data")
    # derivatives must be constant between breakpoints
    moving_src = {(tag, st) for tag, k in S.kind.items() for st in models.STATES[k]}
    moving = influences(spec, moving_src)
    for tag, k in S.kind.items():
        if k in ("cell", "scell"):
            item = next(s for s in spec["items"] if s["tag"] == tag)
            if item.get("g", 0.0) != 0.0 and (tag, "u") in moving:
                raise Reject("not piecewise linear")
            if (tag, "r") in moving:
                raise Reject("not piecewise linear")
    if any((tag, "c") in moving or (tag, "p") in moving or (tag, "q") in moving for tag in S.kind):
        raise Reject("not piecewise linear")

    def load_ext(t):
        for var, (times, vals, kind) in extvars.items():
            V[var] = interp(times, vals, t, kind)

    events = spec.get("events", [])
    time_events = [(i, e, event_times(e, t0, t1)) for i, e in enumerate(events) if e["type"] == "time"]
    # item level events are known to the model before the model level ones
    time_events.sort(key=lambda x: (x[1].get("on") is None))
    state_events = [(i, e) for i, e in enumerate(events) if e["type"] == "state"]
    clocked = influences(spec, {(i["tag"], "z") for i in spec["items"]
                                if i.get("kind", "cell") == "cell" and i.get("c", 0.0) != 0.0})
    for _, e in state_events:
        v = tuple(e["cond"][0].split("."))
        if v == ("t",) or v in loose_set:
            raise Reject("condition not determined")
        if v in mapped and v in held:
            raise Reject("condition on data")
        if e.get("dir", -1) == 0:
            raise Reject("bidirectional")
        k = S.kind[v[0]]
        if k == "branch":
            raise Reject("condition on a branch")
        if v in clocked:
            raise Reject("condition depends on time")
    for e in events:
        for kind, v, val in e["do"]:
            v = tuple(v.split("."))
            if v in mapped or v[1] in models.DERIVED[S.kind[v[0]]]:
                raise Reject("action on a computed variable")
            if v[1] not in models.VARS[S.kind[v[0]]]:
                raise Reject("no such variable")
            if v[1] in ("g", "d", "c", "p", "q") and S.kind[v[0]] in ("cell", "scell"):
                raise Reject("structure parameter")
            srcs = [val] if kind == "copy" else [val[1]] if kind == "addif" else []
            for s in srcs:
                s = tuple(s.split("."))
                if s in loose_set:
                    raise Reject("reads undetermined")
                if s[1] not in models.VARS[S.kind[s[0]]]:
                    raise Reject("no such variable")

    t = t0
    load_ext(t)
    S.eval(t)
    ref.rows.append(Row(t, "init", dict(V), set()))
    ev_ptr = 1
    te_ptr = {i: 0 for i, _, _ in time_events}

    def gval(e):
        v, thr = e["cond"][:2]
        return V[tuple(v.split("."))] - thr

    def run_seq(seq, t):
        """seq: list of (i, e); the values of the variables after all of them"""
        for i, e in seq:
            S.eval(t)
            if e.get("external"):
                S.eval(t)
            apply_action(e["do"], t, lambda v: V[tuple(v.split("."))],
                         lambda v, x: V.__setitem__(tuple(v.split(".")), float(x)))
            for kind, v, val in e["do"]:
                if kind == "addif":
                    # a comparison close to a tie
                    pass
        S.eval(t)

    def check_addif(seq):
        for i, e in seq:
            for kind, v, val in e["do"]:
                if kind == "addif" and abs(V[tuple(val[1].split("."))] - val[2]) < 1e-3:
                    raise Reject("tie in an action")

    def run_all(seq, t):
        check_addif(seq)
        # internal before external events, those of items host by host before those of the model; which item comes first
        # is not promised
        orders = [[]]
        for external in (False, True):
            part = [x for x in seq if bool(x[1].get("external")) == external]
            hosts = sorted({host_of(e) for _, e in part} - {""})
            if len(hosts) > 4:
                raise Reject("events of many hosts")
            orders = [o + [x for h in p + ("",) for x in part if host_of(x[1]) == h]
                      for o in orders for p in itertools.permutations(hosts)]
        keep = dict(V)
        first = None
        for o in orders[::-1]:
            V.clear()
            V.update(keep)
            run_seq(o, t)
            if first is None:
                first = dict(V)
            elif any(abs(V[k] - first[k]) > 1e-9 * (1 + abs(V[k])) for k in V):
                raise Reject("events of different hosts do not commute")

    # the solver takes a time event up to 1000 atol early
    planned = sorted(set(evals) | {x for _, _, ts in time_events for x in ts})
    for a, b in zip(planned, planned[1:]):
        if SAME < b - a < 2e-3:
            raise Reject("two instants very close")
    ms = spec.get("solver", {}).get("max_step")
    if ms and time_events:
        stops = set(planned)
        for ts, _, _ in all_ext(spec).values():
            stops |= {float(x) for x in ts}
        for te in {x for _, _, ts in time_events for x in ts}:
            for s in stops:
                if s < te - SAME and SAME < (te - s) % ms < 2e-3 and (te - s) // ms >= 1:
                    raise Reject("a step may end very close to an event")

    n_ev = 0
    stale = set()
    just_fired = {}
    while True:
        # next planned breakpoint
        cand = [evals[ev_ptr]]
        for i, e, ts in time_events:
            if te_ptr[i] < len(ts):
                cand.append(ts[te_ptr[i]])
        T = min(cand)
        T = max(T, t)
        # earliest crossing before it
        best = None
        if state_events and T > t + SAME:
            g0 = {i: gval(e) for i, e in state_events}
            save = dict(V)
            D = S.deriv()
            for k, dx in D.items():
                V[k] += dx * (T - t)
            S.eval(T)
            g1 = {i: gval(e) for i, e in state_events}
            V.clear()
            V.update(save)
            for i, e in state_events:
                a, b = g0[i], g1[i]
                slope = (b - a) / (T - t)
                d = e.get("dir", -1)
                scale = max(abs(slope), 1e-3)
                near0 = abs(a) < tol * scale
                if near0 and i in just_fired and just_fired[i] is not None:
                    # crossed and goes on in the same direction
                    if slope * d < 0 or abs(slope) < 1e-6:
                        raise Reject("comes back to the level it just crossed")
                elif near0:
                    raise Reject("starts at the level")
                if abs(b) < tol * scale:
                    raise Reject("ends at the level")
                if near0:
                    continue
                if a * b < 0:
                    if i in stale and d * b > 0:
                        raise Reject("crosses again before the next planned instant")
                    tc = t + (T - t) * a / (a - b)
                    if tc - t < tol or T - tc < tol:
                        raise Reject("crossing close to a breakpoint")
                    if abs(slope) < 1e-2:
                        raise Reject("slow crossing")
                    if d * b > 0:
                        if best is not None and abs(tc - best[0]) < 4 * tol:
                            raise Reject("two crossings at once")
                        if best is None or tc < best[0]:
                            best = (tc, i, e)
                    elif best is not None and abs(tc - best[0]) < 4 * tol:
                        raise Reject("two crossings at once")
        if best is not None:
            tc, i, e = best
            # any other crossing (either direction) close to it is a tie; checked above per event
            D = S.deriv()
            for k, dx in D.items():
                V[k] += dx * (tc - t)
            t = tc - early
            S.eval(t)
            before = {j: gval(x) for j, x in state_events}
            check_addif([(i, e)])
            stale.add(i)
            run_seq([(i, e)], t)
            ref.firings.append((t, i, bool(e.get("external")), "state"))
            ref.crossings += 1
            if not e.get("external"):
                ref.rows.append(Row(t, "state", dict(V), set(loose_set), (i,)))
            just_fired = {}
            for j, x in state_events:
                after = gval(x)
                if j == i:
                    # an action that does not move its own condition leaves it just across
                    just_fired[j] = True
                    if abs(after) < tol and abs(after - before[j]) > 1e-12:
                        raise Reject("jumps onto the level")
                else:
                    if before[j] * after <= 0:
                        raise Reject("an action jumps another condition over its level")
            n_ev += 1
            if n_ev > max_events:
                raise Reject("too many events")
            continue
        # advance to T
        if T > t:
            D = S.deriv()
            for k, dx in D.items():
                V[k] += dx * (T - t)
            if T > t + SAME:
                just_fired = {}
            t = T
        stale = set()
        S.eval(t)
        due_i, due_e = [], []
        for i, e, ts in time_events:
            if te_ptr[i] < len(ts) and ts[te_ptr[i]] <= t + SAME:
                (due_e if e.get("external") else due_i).append((i, e))
                te_ptr[i] += 1
        if due_i or due_e:
            n_ev += 1
            if n_ev > max_events:
                raise Reject("too many events")
            before = {j: gval(x) for j, x in state_events}
            run_all(due_i + due_e, t)
            for i, e in due_i + due_e:
                ref.firings.append((t, i, bool(e.get("external")), "time"))
            for j, x in state_events:
                if before[j] * gval(x) <= 0:
                    raise Reject("an action jumps a condition over its level")
            if due_i and not due_e:
                ref.rows.append(Row(t, "event", dict(V), set(loose_set), tuple(i for i, _ in due_i)))
        elif due_i == [] and due_e == []:
            pass
        if ev_ptr < len(evals) and abs(evals[ev_ptr] - t) < SAME:
            before = {j: gval(x) for j, x in state_events}
            load_ext(t)
            S.eval(t)
            for j, x in state_events:
                if before[j] * gval(x) <= 0 and before[j] != gval(x):
                    raise Reject("data jumps a condition over its level")
            ref.rows.append(Row(t, "eval", dict(V), set()))
            ev_ptr += 1
            if ev_ptr < len(evals):
                for ts, what, *_ in spec.get("between", []):
                    if abs(ts - t) < SAME:
                        before = {j: gval(x) for j, x in state_events}
                        for name, val in what:
                            V[tuple(name.split("."))] = float(val)
                        S.eval(t)
                        for j, x in state_events:
                            if before[j] * gval(x) <= 0:
                                raise Reject("a change jumps a condition over its level")
            if ev_ptr == len(evals):
                break
        else:
            # data written at the event time
            load_ext(t)
            S.eval(t)
            for j, x in state_events:
                if abs(gval(x)) < 1e-9:
                    raise Reject("data puts a condition on its level")
    ref.final = dict(V)
    return ref
