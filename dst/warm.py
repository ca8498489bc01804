"""a few throw-away runs so that forked scenarios start with everything loaded"""
import os
import shutil
import tempfile

from . import env, world

ITEMS = [dict(tag="a", kind="cell", x=1.0, r=0.5, p=1.0), dict(tag="b", kind="static"),
         dict(tag="c", kind="total"), dict(tag="d", kind="branch"), dict(tag="e", kind="pair")]
T = [0.0, 1.0, 2.0, 3.0]
V = [1.0, 2.0, 3.0, 4.0]
EVENTS = [dict(key="k", type="time", at=[0.5], do=[["add", "a.n", 1.0]]),
          dict(key="x", type="time", at=[0.25], external=True, do=[["add", "a.n", 1.0]]),
          dict(key="s", type="state", cond=["a.x", 1.3], dir=1, do=[["add", "a.m", 1.0]])]


def f(cols, kind):
    return dict(times=T, columns={f"c{i}": V for i in range(len(cols))},
                map={c: [f"c{i}", kind] for i, c in enumerate(cols)})


def specs():
    base = dict(tag="s", items=ITEMS, maps=[], sums=[["c.s", ["a.y"]]], grid=dict(t0=0.0, t1=1.0, n=2),
                hist=dict(type="local", size=2), events=[], solver=dict(method="Euler"))
    yield dict(base, events=EVENTS, ext=dict(loader="csv", chunk=2, files=[f(["b.u"], "lin"), f(["d.v"], "pw")]))
    yield dict(base, ext=dict(loader="win", files=[f(["b.u", "b.v"], "pw")]))
    yield dict(base, ext=dict(loader="mem", files=[f(["b.u"], "pw")]), hist=dict(type="inmem", size=0))
    yield dict(base, ext=dict(loader="csv", chunk=1, files=[f(["b.u"], "pw")]))
    yield dict(base, ext=dict(loader="csv", chunk=1, files=[f(["b.u", "b.v"], "pw"), f(["d.v"], "pw")]))
    for m in ("RK45", "BDF"):
        yield dict(base, solver=dict(method=m), hist=dict(type="mem", size=2))


def warm_up():
    d = tempfile.mkdtemp(prefix="dst-warm-", dir=env.scratch_root())
    try:
        for spec in specs():
            try:
                w = world.World(spec, d)
                h = w.add(spec)
                with world.interpreted_events():
                    h.build_model()
                    h.build_sim()
                    h.sim.solve()
            except Exception:
                pass     # a broken program is for the scenarios to report
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
    finally:
        shutil.rmtree(d, ignore_errors=True)
