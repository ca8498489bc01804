"""P16: a data loader gives the rows that are asked for, whoever asked before"""
import os

from ..disk import Disk
from ..world import CSVDataLoader, InMemoryDataLoader
from .common import *
import pandas as pd

LEVEL = "fault_enumeration"
RUNS = dict(quick=1500, thorough=100000)
RULE = ("One scenario is a number of files, a loader, and a sequence of requests of several readers at times going on, "
        "back and beyond the rows, some met by read errors and short reads, with rows added to files in between; it is "
        "non-trivial if there are several requests.")
STUB = ["everything but the data loaders (the requests come from the scenario)"]


def make(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice([1, 2, 3, 5, 8, 13, 21, 40])
        t = gen.pick(rng, [0.0, 0.0, 1.5, 100.0, 86400.0])
        times = []
        for _ in range(n):
            times.append(t)
            t += gen.pick(rng, [0.25, 0.5, 1.0, 1.0, 1.0, 3.0])
        cols = rng.randint(1, 4)
        files.append(dict(times=times, columns={f"c{k}": [gen.pick(rng, gen.VAL) + 100.0 * k for _ in times]
                                                for k in range(cols)},
                          place=rng.randint(0, cols), index=rng.random() < 0.2))
    ops = []
    at = [f["times"][0] for f in files]
    for _ in range(rng.randint(1, 14)):
        i = rng.randrange(len(files))
        tt = files[i]["times"]
        r = rng.random()
        if r < 0.5:
            at[i] += gen.pick(rng, [0.0, 0.25, 1.0, 2.0, 7.0])
        elif r < 0.65:
            at[i] = gen.pick(rng, tt)
        elif r < 0.75:
            at[i] = tt[0]
        elif r < 0.85:
            at[i] = max(tt[0] - 1.0, at[i] - gen.pick(rng, [0.25, 1.0, 5.0]))
        elif r < 0.92:
            at[i] = tt[-1] + gen.pick(rng, [0.0, 0.5, 3.0])
        else:
            ops.append(dict(op="append", file=i, rows=rng.randint(1, 3)))
            continue
        op = dict(op="load", file=i, t=at[i])
        if rng.random() < 0.25:
            op["fault"] = dict(op=gen.pick(rng, ["ropen", "read", "read"]), n=rng.choice([0, 0, 0, 1, 2]),
                               kind=gen.pick(rng, ["eio", "eio", "emfile", "short"]), keep=rng.randint(1, 200))
            if op["fault"]["op"] == "ropen":
                op["fault"]["n"], op["fault"]["kind"] = 0, gen.pick(rng, ["eio", "emfile", "eacces"])
        ops.append(op)
    return dict(files=files, ops=ops, chunk=gen.pick(rng, [1, 1, 2, 3, 4, 5, 7, 10, 1000, None]))


def frame(f):
    names = list(f["columns"])
    names.insert(f["place"], "time")
    return pd.DataFrame({n: f["times"] if n == "time" else f["columns"][n] for n in names}, columns=names)


def run(sc, ctx):
    chunk = sc["chunk"]
    if chunk is not None and (type(chunk) is not int or chunk < 1):
        raise refsim.Reject("malformed")
    root = os.path.join(ctx.scratch, "d")
    os.mkdir(root)
    frames, paths = [], []
    for i, f in enumerate(sc["files"]):
        if not f["times"] or any(b <= a for a, b in zip(f["times"], f["times"][1:])) or \
                any(len(c) != len(f["times"]) for c in f["columns"].values()):
            raise refsim.Reject("malformed")
        df = frame(f)
        frames.append(df)
        paths.append(os.path.join(root, f"f{i}.csv"))
        df.to_csv(paths[i], index=bool(f.get("index")))
    loader = CSVDataLoader(chunksize=chunk)
    loads = 0
    for k, op in enumerate(sc["ops"]):
        i = op["file"]
        if not 0 <= i < len(frames):
            raise refsim.Reject("malformed")
        if op["op"] == "append":
            df = frames[i]
            last = df.iloc[-1]
            new = pd.DataFrame([{c: (last[c] + 1.0 + j if c == "time" else 7.0 + j) for c in df.columns}
                                for j in range(op["rows"])], columns=df.columns)
            if sc["files"][i].get("index"):
                new.index += len(df)
            new.to_csv(paths[i], mode="a", header=False, index=bool(sc["files"][i].get("index")))
            frames[i] = pd.concat([df, new], ignore_index=True)
            ctx.probe("appended")
            continue
        f = op.get("fault")
        disk = Disk(root, [f] if f else [])
        exc = got = None
        try:
            with disk.mounted():
                got = loader.load(paths[i], op["t"])
        except OSError as e:
            exc = e
        except Exception as e:
            raise Violation(f"unexpected-exception:{type(e).__name__}",
                            f"request {k} for t={op['t']!r}: {type(e).__name__}: {str(e)[:200]}") from e
        ctx.runs += 1
        for o, _, kind in disk.fired:
            ctx.faults[f"disk:{o}:{kind}"] += 1
        hard = [x for x in disk.fired if x[2] != "short"]
        ctx.note(k, i, op["t"], None if got is None else len(got), disk.fired)
        if exc is not None:
            if not hard:
                raise Violation("unexpected-exception:OSError", f"request {k}: {exc}")
            ctx.probe("failed_requests")
            continue
        loads += 1
        if hard:
            raise Violation("silent-read-fault", f"request {k} met {hard} and was answered with {len(got)} rows")
        check(got, frames[i], op["t"], f"request {k} for t={op['t']!r}", sc["files"][i].get("index"))
    ctx.nontrivial = loads > 1


def check(got, df, t, what, index):
    missing = [c for c in df.columns if c not in got.columns]
    if missing:
        raise Violation("columns-missing", f"{what}: {missing}; there are {list(got.columns)}")
    a = got["time"].to_numpy(float)
    b = df["time"].to_numpy(float)
    if not len(a):
        raise Violation("no-rows", what)
    w = np.flatnonzero(b == a[0])
    if len(w) != 1 or len(a) > len(b) - w[0] or not np.array_equal(a, b[w[0]:w[0] + len(a)]):
        raise Violation("rows-differ", f"{what}: rows at {list(a)[:30]} of a file with {list(b)[:30]}")
    lo, hi = int(w[0]), int(w[0]) + len(a)
    j = int(np.searchsorted(b, t, side="right")) - 1      # the last row at or before t
    if not lo <= max(j, 0) < hi:
        raise Violation("row-missing", f"{what}: rows at {list(a)[:30]}, not that of {b[max(j, 0)]!r}")
    if j + 1 < len(b) and not lo <= j + 1 < hi:
        raise Violation("row-missing", f"{what}: rows at {list(a)[:30]}, not that of {b[j + 1]!r}, the next one")
    for c in df.columns:
        x = got[c].to_numpy(float)
        y = df[c].to_numpy(float)[lo:hi]
        if not np.array_equal(x, y):
            raise Violation("values-differ", f"{what}: column {c} {list(x)[:20]} of {list(y)[:20]}")
