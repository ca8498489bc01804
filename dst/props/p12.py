"""P12: a run is a function of the model and its inputs alone"""
import contextlib
import hashlib
import json
import os
import random
import subprocess
import sys
import uuid

from .. import env
from .common import *

LEVEL = "exploration"
RUNS = dict(quick=500, thorough=30000)
RULE = ("One scenario is a generated system built and run twice in one process with different identifiers drawn (random, "
        "counting up or down, sharing a prefix or suffix), or with its items, subsystems, mappings and data columns "
        "registered in another order; some are run again in processes that hash strings differently. It is non-trivial "
        "if the system has more than one item.")
F = dict(max_time=5, max_state=2, external=0.35, ext=0.45, max_items=6, subs=0.6, sets=0.25, maps=0.6,
         hist_sizes=[0, 0, 2, 3, 8])
SMOOTH = dict(max_time=3, max_state=0, external=0.3, decay=0.6, max_items=6, subs=0.6, sets=0.25, maps=0.6,
              kinds=["cell", "pair", "static", "scell", "branch", "total"], ext=0.4, methods=["Euler", "RK45"],
              hist_sizes=[0, 0, 1, 3, 8])
STREAMS = ["random", "up", "down", "prefix", "suffix", "time"]


def stream(kind, seed):
    """unique identifiers, as uuid4 and uuid1 may draw them"""
    rng = random.Random(f"{kind}/{seed}")
    n = [0]
    base = rng.getrandbits(128)

    def draw(*a):
        n[0] += 1
        if kind == "random":
            return uuid.UUID(int=rng.getrandbits(128), version=4)
        if kind == "up":
            return uuid.UUID(int=n[0])
        if kind == "down":
            return uuid.UUID(int=(1 << 128) - n[0])
        if kind == "prefix":
            return uuid.UUID(int=(base >> 20 << 20) | n[0])
        if kind == "suffix":
            return uuid.UUID(int=((n[0] << 108) | (base >> 20)))
        if kind == "time":
            return uuid.UUID(int=(base + (n[0] << 96)) % (1 << 128))
        raise refsim.Reject("malformed")
    return draw


@contextlib.contextmanager
def identifiers(kind, seed):
    u4, u1, st = uuid.uuid4, uuid.uuid1, random.getstate()
    d = stream(kind, seed)
    uuid.uuid4 = uuid.uuid1 = d
    random.seed(f"{kind}/{seed}")
    try:
        yield
    finally:
        uuid.uuid4, uuid.uuid1 = u4, u1
        random.setstate(st)


def make(rng, tier):
    if rng.random() < 0.3:
        spec = gen.gen_spec(rng, SMOOTH)
        if spec["solver"]["method"] == "RK45":
            spec["events"] = []
            if refsim.all_ext(spec):
                spec["solver"]["method"] = "Euler"
    else:
        spec, _ = gen.gen_ref_spec(rng, F)
    sc = dict(spec=spec, ids=[[gen.pick(rng, STREAMS), rng.randrange(1000)] for _ in range(2)])
    if rng.random() < 0.5:
        sc["shuffle"] = rng.randrange(1 << 30)
    return sc


def shuffled(spec, seed):
    """the same system, put together in another order"""
    sp = copy.deepcopy(spec)
    hosted = [e for e in sp.get("events", []) if e.get("on") is not None]
    rng = random.Random(seed)
    items = sp["items"]
    if len(hosted) < 2:      # (the order of the items decides which event is first)
        plain = {s["tag"] for s in sp.get("subs", []) if s.get("set")}
        free = [i for i in items if i.get("sub", "") not in plain]
        rng.shuffle(free)
        sp["items"] = [i for i in items if i.get("sub", "") in plain] + free if rng.random() < 0.5 else \
            free + [i for i in items if i.get("sub", "") in plain]
    rng.shuffle(sp["maps"])
    rng.shuffle(sp["sums"])
    for ext in [sp.get("ext")] + [s.get("ext") for s in sp.get("subs", [])]:
        for f in (ext or {}).get("files", []):
            m = list(f["map"].items())
            rng.shuffle(m)
            f["map"] = dict(m)
            c = list(f["columns"].items())
            rng.shuffle(c)
            f["columns"] = dict(c)
    return sp


def outcome(spec, ctx, ids):
    w, h = drive.one(spec, ctx)
    with identifiers(*ids):
        drive.solve(h)
    ctx.take(w)
    return h


def digest(h):
    t, c = oracles.table(h)
    m = hashlib.sha256(repr([(k, ) for k in sorted(c)]).encode())
    m.update(np.ascontiguousarray(t).tobytes())
    for k in sorted(c):
        m.update(np.ascontiguousarray(c[k]).tobytes())
    m.update(repr(h.actions).encode())
    return m.hexdigest()


def run(sc, ctx):
    spec = sc["spec"]
    if "hash" in sc:
        return run_hash(sc, ctx)
    step_tolerance(spec)
    ctx.nontrivial = len(spec["items"]) > 1
    a = outcome(spec, ctx, sc["ids"][0])
    b = outcome(spec, ctx, sc["ids"][1])
    same_tables(a, b, f"identifiers {sc['ids']}")
    if a.actions != b.actions:
        raise Violation("actions-differ", f"{a.actions[:20]} against {b.actions[:20]}")
    if a.ras != b.ras:
        raise Violation("run-after-differ", f"{a.ras} against {b.ras}")
    if "shuffle" in sc:
        ctx.probe("shuffled")
        c = outcome(shuffled(spec, sc["shuffle"]), ctx, sc["ids"][0])
        # (rounding moves located crossings)
        tol = 1e-9 if not oracles.has_state_events(spec) else 5e-5
        same_tables(a, c, "put together in another order", tol)
        same_actions(c.actions, a.actions, "put together in another order", tol)


# ------------------------------------------------------- processes that hash differently
def digests(specs, hashseed, scratch):
    """outcome of each spec in a new interpreter"""
    path = os.path.join(scratch, f"specs{hashseed}.json")
    with open(path, "w") as f:
        json.dump(specs, f)
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, "-m", "dst.props.p12", path], cwd=env.VERIF, env=e, capture_output=True,
                       text=True, timeout=240)
    if r.returncode != 0:
        raise RuntimeError("digest process failed: " + r.stderr[-2000:])
    return json.loads(r.stdout.splitlines()[-1])


def child(path):
    import tempfile
    from ..runner import Ctx
    with open(path) as f:
        specs = json.load(f)
    out = []
    for i, sp in enumerate(specs):
        with tempfile.TemporaryDirectory(dir=os.path.dirname(path)) as d:
            ctx = Ctx(d)
            try:
                h = outcome(sp, ctx, ("random", i))
                out.append(digest(h))
            except Violation as e:
                out.append("failed " + e.cls)
            except (refsim.Reject, KeyError, ValueError) as e:
                out.append("invalid")
    print(json.dumps(out))


def run_hash(sc, ctx):
    a, b = sc["hash"]
    ctx.nontrivial = True
    da = digests([sc["spec"]], a, ctx.scratch)
    db = digests([sc["spec"]], b, ctx.scratch)
    if da != db:
        raise Violation("hash-dependence", f"under PYTHONHASHSEED={a} the outcome is {da}, under {b} {db}")


def extra(pool, tier, seed, ex, deadline):
    """the same scenarios in processes with different string hashing"""
    import concurrent.futures
    import time
    rng = random.Random(f"P12x/{seed}")
    n = 60 if tier == "quick" else 400
    rounds = 1 if tier == "quick" else 20
    done = 0
    seeds_used = set()
    for _ in range(rounds):
        if time.monotonic() > deadline:
            break
        specs = []
        while len(specs) < n:
            try:
                specs.append(make(rng, tier)["spec"])
            except refsim.Reject:
                pass
        hs = [rng.randrange(1, 4294967295) for _ in range(4)]
        seeds_used |= set(hs)
        try:
            with concurrent.futures.ThreadPoolExecutor(4) as exe:
                res = list(exe.map(lambda h: digests(specs, h, pool.dir), hs))
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            ex["digest_process_failed"] = str(e)[-300:]
            break
        done += n * len(hs)
        for i in range(n):
            got = [r[i] for r in res]
            for h, g in zip(hs, got):
                if g != got[0]:
                    yield ("hash-dependence", dict(spec=specs[i], hash=[hs[0], h]),
                           f"under PYTHONHASHSEED={hs[0]} the outcome is {got[0]}, under {h} {g}")
                    break
    ex["runs_under_other_hash_seeds"] = done
    ex["hash_seeds"] = len(seeds_used)


if __name__ == "__main__":
    child(sys.argv[1])
