"""Running simulations of a world under a given plan."""
import contextlib
import os

from . import env
from .oracles import Violation
from .refsim import Reject
from .world import Crash, InjectedFault, StepBudget, World, interpreted_events


def program_frame(exc):
    """innermost frame of the program under test (or of its solver) in a traceback"""
    tb = exc.__traceback__
    place = None
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(env.REPO + os.sep) or f.startswith(os.path.realpath(env.REPO) + os.sep):
            place = os.path.basename(f) + ":" + tb.tb_frame.f_code.co_name
        elif "numerous/solver" in f and place is None:
            place = "solver:" + tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return place


@contextlib.contextmanager
def expected_to_work():
    """a program exception here is a violation; one of the harness is not"""
    try:
        yield
    except (Violation, Reject, InjectedFault):
        raise
    except Exception as e:
        place = program_frame(e)
        if place is None:
            raise
        raise Violation(f"unexpected-exception:{type(e).__name__}", f"{type(e).__name__}: {str(e)[:300]} (in {place})") from e


def build(h):
    with expected_to_work(), interpreted_events(not h.spec.get("jit")):
        h.build_model()
        h.build_sim()
    return h


def solve(h, rebuild=True):
    """build and run to the end; a legitimate scenario must not raise"""
    if rebuild:
        build(h)
    with expected_to_work(), interpreted_events(not h.spec.get("jit")):
        h.sim.solve()
    return h


def cut_steps(h, cuts):
    """advance by step_solve over the given instants"""
    for a, b in zip(cuts, cuts[1:]):
        step(h, a, b)
    finish(h)


def step(h, a, b):
    with expected_to_work(), interpreted_events(not h.spec.get("jit")):
        return h.sim.step_solve(a, b - a)


def finish(h):
    """what the documentation asks for after single steps"""
    with expected_to_work():
        h.model.create_historian_df()


def one(spec, ctx, **over):
    """a world with one simulation of the spec"""
    sp = dict(spec)
    sp.update(over)
    if not sp["grid"]["t1"] > sp["grid"]["t0"]:
        raise Reject("the run has no length")
    d = os.path.join(ctx.scratch, f"w{ctx.runs}_{len(os.listdir(ctx.scratch))}")
    os.mkdir(d)
    w = World(sp, d, budget=sp.get("budget", 60000))
    h = w.add(sp)
    return w, h


__all__ = ["Crash", "InjectedFault", "StepBudget", "build", "solve", "cut_steps", "step", "finish", "one",
           "expected_to_work", "program_frame"]
