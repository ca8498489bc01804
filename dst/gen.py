"""Scenario generation: every choice comes from the random.Random it is given."""
import copy
import math

from . import refsim
from .refsim import Reject

VAL = [i / 8 for i in range(-32, 33)]
POS = [i / 8 for i in range(1, 25)]
RATE = [i / 16 for i in range(-32, 33) if i]


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def chance(rng, p):
    return rng.random() < p


def gen_grid(rng, F):
    style = rng.random()
    if style < F.get("nasty_grid", 0.15):
        n = rng.randint(2, 13)
        t0 = pick(rng, [0.0, 0.1, 0.7, 1.3, 33.3])
        t1 = round(t0 + pick(rng, [0.3, 0.9, 1.0, 2.1, 3.7]), 3)
    else:
        n = pick(rng, [1, 2, 3, 4, 6, 8, 8, 12, 16, 24])
        dt = pick(rng, [0.125, 0.25, 0.5, 0.5, 1.0, 2.0])
        t0 = pick(rng, [0.0, 0.0, 0.0, 0.5, 1.0, 2.5, 64.0])
        if chance(rng, F.get("late", 0.0 if F.get("min_state") else 0.1)):
            t0 = pick(rng, [512.0, 4096.0, 86400.0, 1.0e6])
        t1 = t0 + n * dt
    return dict(t0=t0, t1=t1, n=n)


def gen_items(rng, F):
    items = []
    subs = []
    kinds = F.get("kinds", ["cell", "cell", "cell", "static", "total", "branch", "scell"])
    n = rng.randint(F.get("min_items", 1), F.get("max_items", 4))
    if chance(rng, F.get("subs", 0.4)):
        subs.append(dict(tag="A"))
        if chance(rng, 0.4):
            subs.append(dict(tag="B", parent="A"))
        if chance(rng, 0.25):
            subs.append(dict(tag="C"))
    if chance(rng, F.get("sets", 0.15)):
        s = dict(tag="S", set=True)
        if subs and chance(rng, 0.5):
            s["parent"] = "A"
        subs.append(s)
        for k in range(rng.randint(1, 3)):
            items.append(gen_item(rng, F, "scell", f"m{k}", "S"))
    plain = [s["tag"] for s in subs if not s.get("set")]
    for k in range(n):
        kind = pick(rng, kinds)
        sub = pick(rng, plain + [""]) if plain else ""
        # items of different subsystems may have the same name
        tag = f"i{k}"
        items.append(gen_item(rng, F, kind, tag, sub))
    if F.get("need_state") and not any(i["kind"] in ("cell", "scell", "pair") for i in items):
        items.append(gen_item(rng, F, "cell", "ix", ""))
    # every subsystem has something in it
    for s in subs:
        if not s.get("set") and not any(i.get("sub") == s["tag"] for i in items) \
                and not any(x.get("parent") == s["tag"] for x in subs):
            items.append(gen_item(rng, F, "static", "f" + s["tag"], s["tag"]))
    return items, subs


def gen_item(rng, F, kind, tag, sub):
    it = dict(tag=tag, kind=kind)
    if sub:
        it["sub"] = sub
    if kind in ("cell", "scell"):
        it["x"] = pick(rng, VAL)
        it["r"] = pick(rng, RATE) if chance(rng, 0.9) else 0.0
        it["p"] = pick(rng, [0.0, 1.0, 2.0, -1.5, 0.5])
        it["q"] = pick(rng, [0.0, 1.0, -2.0, 3.0])
        it["u"] = pick(rng, VAL)
        if kind == "cell":
            it["w"] = pick(rng, VAL)
            it["c"] = pick(rng, [0.0, 0.0, 1.0, -0.5])
        if chance(rng, F.get("g", 0.3)):
            it["g"] = pick(rng, [1.0, -0.5, 2.0])
        if chance(rng, F.get("decay", 0.0)):
            it["d"] = pick(rng, [0.25, 0.5, 1.0])
    elif kind == "pair":
        it.update(a=pick(rng, VAL), b=pick(rng, VAL), k=pick(rng, POS), f=pick(rng, [0.0, 0.25, 0.5]),
                  r=pick(rng, VAL))
    elif kind == "static":
        it.update(p=pick(rng, VAL), q=pick(rng, VAL), u=pick(rng, VAL), v=pick(rng, VAL))
    elif kind == "total":
        it.update(s=pick(rng, VAL), k=pick(rng, [2.0, -1.0, 0.5]))
    elif kind == "branch":
        it.update(p=pick(rng, VAL), q=pick(rng, VAL), v=pick(rng, VAL), lev=pick(rng, VAL) + 0.03)
    return it


def by_tag(spec):
    return {i["tag"]: i for i in spec["items"]}


def in_set(spec, tag):
    sets = {s["tag"] for s in spec.get("subs", []) if s.get("set")}
    return by_tag(spec)[tag].get("sub", "") in sets


def gen_maps(rng, F, spec):
    maps, sums = [], []
    taken = set()
    items = spec["items"]
    outs = {"cell": ["x", "y", "z", "w"], "scell": ["x", "y"], "static": ["y", "yv", "v"], "total": ["s2"],
            "branch": ["y"], "pair": ["a", "e"]}
    ins = {"cell": ["u", "w"], "static": ["u", "v"], "branch": ["v"], "scell": ["u"]}
    for j, it in enumerate(items):
        if in_set(spec, it["tag"]):
            continue
        srcs = [x for x in items[:j]]
        if it["kind"] == "total":
            srcs = [x for x in srcs if not in_set(spec, x["tag"])
                    and not any(d.startswith(x["tag"] + ".") and in_set(spec, y.split(".")[0]) for d, y in maps)]
        if it["kind"] == "total":
            cand = [f"{x['tag']}.{o}" for x in srcs for o in outs[x["kind"]]]
            if len(cand) >= 1 and chance(rng, 0.9):
                k = rng.randint(1, min(3, len(cand)))
                sums.append([f"{it['tag']}.s", rng.sample(cand, k)])
                taken.add(f"{it['tag']}.s")
        elif srcs and chance(rng, F.get("maps", 0.35)):
            s = pick(rng, srcs)
            v = pick(rng, ins.get(it["kind"], ["r"])) if it["kind"] in ins else None
            if v and it["kind"] in ("cell", "scell") and v == "u":
                it["g"] = 0.0
            if v:
                maps.append([f"{it['tag']}.{v}", f"{s['tag']}.{pick(rng, outs[s['kind']])}"])
                taken.add(f"{it['tag']}.{v}")
    return maps, sums, taken


def gen_series_times(rng, spec, on_grid, t0, t1, n):
    ev = refsim.grid_times(spec["grid"])
    if on_grid:
        base = [t for t in ev]
        if chance(rng, 0.3):
            base = base[::2]
        if base[0] > t0 or chance(rng, 0.2):
            base = [t0] + base
        lead = [t0 - 1.0, t0 - 2.0] if chance(rng, 0.25) and t0 >= 2.0 else []
        times = sorted(set(lead + base))
        last = times[-1]
        tail = [last + 1.0] if last < t1 or chance(rng, 0.6) else []
        if last < t1:
            tail = [max(t1, last + 0.5)]
        return sorted(set(times + tail))
    step = pick(rng, [0.0625, 0.1875, 0.25, 0.4375, 0.5, 1.0])
    m = int(math.ceil((t1 - t0) / step)) + 1
    off = pick(rng, [0.0, 0.0, 0.03125, step / 2])
    times = [t0 - off + i * step for i in range(m + 1)]
    if chance(rng, 0.3):   # uneven
        times = sorted(set([times[0]] + [x for x in times[1:] if chance(rng, 0.6)] + [times[-1]]))
    while times[-1] < t1:
        times.append(times[-1] + step)
    return times


def gen_ext(rng, F, spec, taken, lid=0, only=None):
    g = spec["grid"]
    t0, t1 = g["t0"], g["t1"]
    inputs = []
    moving = set()
    for it in spec["items"]:
        if only is not None and it["tag"] not in only:
            continue
        for v in {"cell": ["u", "w"], "scell": ["u"], "static": ["u", "v"], "branch": ["v"]}.get(it["kind"], []):
            if f"{it['tag']}.{v}" not in taken:
                inputs.append((it, v))
    if not inputs:
        return None
    rng.shuffle(inputs)
    inputs = inputs[:rng.randint(1, min(F.get("max_ext", 5), len(inputs)))]
    nf = rng.randint(1, min(F.get("max_files", 3), len(inputs)))
    loader = pick(rng, F.get("loaders", ["csv", "csv", "mem", "win"]))
    if loader == "mem":
        nf = 1
    files = [dict(times=None, columns={}, map={}) for _ in range(nf)]
    for j, (it, v) in enumerate(inputs):
        f = files[j % nf]
        f.setdefault("_in", []).append((it, v))
    out = []
    for i, f in enumerate(files):
        ins = f.pop("_in")
        needs_grid = any(it.get("g", 0.0) != 0.0 and v == "u" for it, v in ins)
        on_grid = needs_grid or chance(rng, F.get("ext_on_grid", 0.5))
        times = gen_series_times(rng, spec, on_grid, t0, t1, g["n"])
        mult = pick(rng, F.get("mults", [1, 1, 1, 2, 0.5, 4]))
        times = [t / mult for t in times]
        if min(times) < 0:
            times = [t for t in times if t >= 0] or [0.0, t1 / mult]
            if times[0] * mult > t0:
                times = [t0 / mult] + times
        f["times"] = times
        if mult != 1:
            f["mult"] = mult
        ncol = len(ins) + rng.randint(0, 2)
        names = [f"c{k}" for k in range(ncol)]
        rng.shuffle(names)
        for k in range(ncol):
            if chance(rng, 0.3):
                vals = [float(k * 10 + j) for j in range(len(times))]
            elif chance(rng, 0.15):     # data that drift by little
                base, step = pick(rng, [20.0, -3.0, 1000.0]), pick(rng, [1.0, 16.0]) / 2 ** 17
                vals = [base + step * (j + pick(rng, [0.0, 0.0, 1.0])) for j in range(len(times))]
            else:
                vals = [pick(rng, VAL) for _ in times]
                if chance(rng, 0.3):   # stretches of equal values
                    for j in range(1, len(vals)):
                        if chance(rng, 0.6):
                            vals[j] = vals[j - 1]
            f["columns"][names[k]] = vals
        for k, (it, v) in enumerate(ins):
            lin = not (it.get("g", 0.0) != 0.0 and v == "u") and chance(rng, F.get("lin", 0.4))
            col = names[k]
            if k and chance(rng, 0.15):
                col = names[rng.randrange(k)]      # two variables from one column
            f["map"][f"{it['tag']}.{v}"] = [col, "lin" if lin else "pw"]
        if chance(rng, 0.3):
            order = ["time"] + list(f["columns"])
            rng.shuffle(order)
            f["order"] = order
        if chance(rng, F.get("start_rows", 0.1)) and loader != "csv" and loader != "win":
            k = sum(1 for t in times if t * mult <= t0) - 1
            if k > 0:
                f["start"] = rng.randint(0, k)
        out.append(f)
    ext = dict(loader=loader, files=out)
    if loader == "csv":
        ext["chunk"] = pick(rng, F.get("chunks", [1, 2, 2, 3, 4, 5, 7, 10, 1000, None]))
        ext["index_col"] = chance(rng, 0.2)
    elif loader == "win":
        n = max(len(f["times"]) for f in out)
        ext["cuts"] = sorted(rng.sample(range(n + 1), min(n, rng.randint(0, 4))))
        ext["back"] = rng.randint(0, 2)
    return ext


def gen_time_event(rng, F, spec, key):
    g = spec["grid"]
    t0, t1 = g["t0"], g["t1"]
    evs = refsim.grid_times(g)
    e = dict(key=key, type="time")
    if chance(rng, F.get("periodic", 0.3)):
        span = t1 - t0
        e["period"] = pick(rng, [p for p in (0.125, 0.25, 0.375, 0.5, 0.75, 1.0, 1.5, 3.0, 0.1, 0.3)
                                 if p >= span / 40] or [span])
    else:
        at = []
        for _ in range(rng.randint(1, F.get("max_at", 5))):
            r = rng.random()
            if r < 0.35:
                x = pick(rng, evs)
            elif r < 0.8:
                x = t0 + math.floor((t1 - t0) * rng.random() * 64) / 64
            elif r < 0.87:
                x = t0
            elif r < 0.93:
                x = t1
            elif r < 0.965:
                x = t1 + pick(rng, POS)
            else:
                x = max(0.0, t0 - pick(rng, POS))
            at.append(float(x))
        at = list(dict.fromkeys(at))
        # no two instants of one event that are different only by rounding
        keep = []
        for x in at:
            if all(abs(x - y) > 1e-3 for y in keep):
                keep.append(x)
        rng.shuffle(keep)
        if chance(rng, 0.6):
            keep.sort()
        e["at"] = keep
    return e


def gen_do(rng, F, spec, host, mapped, nmax=3):
    """an action that writes variables the host can see"""
    items = spec["items"]
    bt = by_tag(spec)
    if host is None:
        vis = items
    elif host == "@":
        vis = items
    elif host.startswith("@"):
        inside = {host[1:]}
        for s in spec.get("subs", []):
            if s.get("parent") in inside:
                inside.add(s["tag"])
        vis = [i for i in items if i.get("sub", "") in inside]
    else:
        vis = [bt[host]]
    targets = []
    for i in vis:
        k = i["kind"]
        vs = {"cell": ["n", "n", "m", "tl", "x", "r", "w"], "scell": ["n", "n", "m", "tl", "x", "r"],
              "static": ["n", "n", "m", "tl", "v", "u"], "branch": ["n", "n", "m", "tl", "v"],
              "pair": ["n", "m", "tl", "a", "b"], "total": ["k"]}[k]
        if F.get("only_book"):
            vs = [v for v in vs if v in ("n", "m", "tl")]
        if F.get("no_rate"):
            vs = [v for v in vs if v not in ("r",)]
        for v in vs:
            name = f"{i['tag']}.{v}"
            if name not in mapped:
                targets.append(name)
    if not targets:
        return None
    do = []
    for _ in range(rng.randint(1, nmax)):
        v = pick(rng, targets)
        var = v.split(".")[1]
        if var == "tl":
            do.append(["time", v, None])
            continue
        r = rng.random()
        if var in ("n", "m"):
            if r < 0.75:
                do.append([pick(rng, ["add", "add", "aug", "named"]), v, pick(rng, [1.0, 1.0, 2.0, 0.5])])
                continue
        val = pick(rng, [x for x in VAL if x])
        if r < 0.35:
            do.append([pick(rng, ["add", "aug", "named", "add"]), v, val])
        elif r < 0.47 and not any(d[0] in ("addk", "addh") for d in do):
            do.append([pick(rng, ["addk", "addh"]), v, val])
        elif r < 0.6:
            do.append(["set", v, pick(rng, [val, 3, 0])])
        elif r < 0.7:
            do.append(["mul", v, pick(rng, [0.5, -1.0, 2.0])])
        elif r < 0.85:
            srcs = [f"{i['tag']}.{x}" for i in vis for x in
                    {"cell": ["x", "y", "n", "w"], "scell": ["x", "y", "n"], "static": ["y", "yv", "n"],
                     "branch": ["y", "n"], "pair": ["a", "n"], "total": ["s2", "k"]}[i["kind"]]]
            do.append(["copy", v, pick(rng, srcs)])
        else:
            srcs = [f"{i['tag']}.{x}" for i in vis for x in
                    {"cell": ["x", "y", "n"], "scell": ["x", "y"], "static": ["y", "n"], "branch": ["y", "n"],
                     "pair": ["a"], "total": ["s2"]}[i["kind"]]]
            do.append(["addif", v, [val, pick(rng, srcs), pick(rng, VAL) + 0.053]])
    return do


def gen_host(rng, F, spec):
    r = rng.random()
    items = [i for i in spec["items"] if i["kind"] != "total"]
    if r < 0.35:
        return None
    if r < 0.85 and items:
        return pick(rng, items)["tag"]
    plain = [s["tag"] for s in spec.get("subs", []) if not s.get("set")]
    return "@" + pick(rng, plain + [""])


def gen_events(rng, F, spec, mapped):
    events = []
    n = rng.randint(F.get("min_time", 0), F.get("max_time", 4))
    same_key = chance(rng, 0.3)
    same_fn = chance(rng, 0.2)
    for j in range(n):
        e = gen_time_event(rng, F, spec, "k" if same_key else f"k{j}")
        host = gen_host(rng, F, spec)
        do = gen_do(rng, F, spec, host, mapped)
        if not do:
            continue
        if host is not None:
            e["on"] = host
        e["do"] = do
        if chance(rng, F.get("external", 0.35)):
            e["external"] = True
        if same_fn:
            e["fname"] = "act"
        events.append(e)
    ns = rng.randint(F.get("min_state", 0), F.get("max_state", 2))
    for j in range(ns):
        host = gen_host(rng, F, spec)
        cands = []
        for i in spec["items"]:
            if host is not None and not host.startswith("@") and i["tag"] != host:
                continue
            if host is not None and host.startswith("@") and len(host) > 1 and i.get("sub") != host[1:]:
                continue
            if i["kind"] == "cell":
                cands += [f"{i['tag']}.{v}" for v in ("x", "x", "y", "z")]
            elif i["kind"] == "scell":
                cands += [f"{i['tag']}.{v}" for v in ("x", "y")]
            elif i["kind"] == "total":
                cands += [f"{i['tag']}.s2"]
            elif i["kind"] == "pair" and F.get("pair_cond"):
                cands += [f"{i['tag']}.a"]
        if not cands:
            continue
        e = dict(key="s" if same_key else f"s{j}", type="state",
                 cond=[pick(rng, cands), pick(rng, VAL) + pick(rng, [0.0437, 0.0713, -0.0291])],
                 dir=pick(rng, [-1, 1]))
        if chance(rng, 0.25):
            e["cond"].append("k")
        do = gen_do(rng, F, spec, host, mapped)
        if not do:
            continue
        # most often, bring the observed quantity back, so that it crosses again
        if host is not None:
            e["on"] = host
        if chance(rng, 0.6):
            var = e["cond"][0].split(".")
            if var[1] == "x":
                do.append(["add", e["cond"][0], -e["dir"] * pick(rng, [0.5, 1.0, 1.5, 2.0])])
        e["do"] = do
        if chance(rng, F.get("state_external", 0.3)):
            e["external"] = True
        if same_fn:
            e["fname"] = "act"
            e["cname"] = "cond"
        events.append(e)
    if chance(rng, 0.5):
        rng.shuffle(events)
    return events


def gen_spec(rng, F, tag="s"):
    spec = dict(tag=tag, grid=gen_grid(rng, F))
    spec["items"], spec["subs"] = gen_items(rng, F)
    spec["maps"], spec["sums"], taken = gen_maps(rng, F, spec)
    mapped = set(taken)
    if chance(rng, F.get("ext", 0.4)):
        plain = [s for s in spec["subs"] if not s.get("set")]
        ext = gen_ext(rng, F, spec, taken)
        if ext:
            spec["ext"] = ext
            for f in ext["files"]:
                mapped |= set(f["map"])
        if plain and chance(rng, 0.4):
            s = pick(rng, plain)
            only = {i["tag"] for i in spec["items"] if i.get("sub") == s["tag"]}
            e2 = gen_ext(rng, F, spec, mapped, only=only)
            if e2:
                s["ext"] = e2
                for f in e2["files"]:
                    mapped |= set(f["map"])
    spec["events"] = gen_events(rng, F, spec, mapped) if F.get("events", True) else []
    if spec["grid"]["t0"] > 100.0:      # the solver locates crossings by absolute tolerances
        spec["events"] = [e for e in spec["events"] if e["type"] != "state"]
    state_ev = any(e["type"] == "state" for e in spec["events"])
    method = pick(rng, F.get("methods", ["Euler"]))
    spec["solver"] = dict(method=method)
    if state_ev:
        spec["solver"]["atol"] = 1e-9
        spec["solver"]["rtol"] = 1e-6
    elif chance(rng, 0.3):
        spec["solver"]["max_step"] = pick(rng, [0.0625, 0.25, 1.0])
    spec["hist"] = gen_hist(rng, F)
    for s in spec["subs"]:
        if not s.get("set") and chance(rng, 0.2):
            s["hook"] = True
    if not spec["subs"]:
        del spec["subs"]
    if chance(rng, 0.3):
        spec["share_fn"] = True
    return spec


def gen_hist(rng, F):
    t = pick(rng, F.get("hists", ["mem", "mem", "mem", "inmem"]))
    if t == "inmem":
        return dict(type="inmem", size=0)
    return dict(type=t, size=pick(rng, F.get("hist_sizes", [0, 0, 1, 2, 3, 5, 8, 40])))


def gen_ref_spec(rng, F, tries=60, tag="s", want=None):
    """a spec inside the family the reference model decides, and its outcome"""
    last = None
    for _ in range(tries):
        spec = gen_spec(rng, F, tag)
        try:
            ref = refsim.simulate(copy.deepcopy(spec))
        except Reject as e:
            last = str(e)
            # dropping the state events often is enough
            if any(e["type"] == "state" for e in spec["events"]) and not F.get("min_state"):
                spec = dict(spec, events=[e for e in spec["events"] if e["type"] != "state"])
                spec["solver"] = {k: v for k, v in spec["solver"].items() if k == "method"}
                try:
                    ref = refsim.simulate(copy.deepcopy(spec))
                except Reject as e2:
                    last = str(e2)
                    continue
            else:
                continue
        if want is not None and not want(spec, ref):
            last = "not wanted"
            continue
        return spec, ref
    raise Reject(f"no scenario in {tries} tries ({last})")
