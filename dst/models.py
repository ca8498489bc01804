"""Workload model library: the systems the simulated program is given.

Everything is built through the public API of numerous (Item, Subsystem,
EquationBase, events, external mappings, historians).  A model is described by
a JSON-able spec so that a scenario can be replayed and minimised.
"""
from . import env  # noqa: F401
from numerous.engine.system import Item
from numerous.multiphysics import EquationBase, Equation
from numerous.utils.logger_levels import LoggerLevel

LEVELS = {"all": LoggerLevel.ALL, "debug": LoggerLevel.DEBUG, "info": LoggerLevel.INFO}


class Described(EquationBase):
    """variables with a logger level and an alias, if the description gives them"""

    def __init__(self, s, tag):
        self._described = s
        super().__init__(tag=tag)

    def _options(self, tag):
        out = {}
        s = self._described
        if tag in s.get("log", {}):
            out["logger_level"] = LEVELS[s["log"][tag]]
        if tag in s.get("alias", {}):
            out["alias"] = s["alias"][tag]
        return out

    def add_parameter(self, tag, init_val=0):
        super().add_parameter(tag, init_val, **self._options(tag))

    def add_state(self, tag, init_val=0):
        super().add_state(tag, init_val, **self._options(tag))


class CellEq(Described):
    """x' = r + g*u - d*x ;  y = p*x + q*u ;  z = y + w + c*t"""

    def __init__(self, s):
        super().__init__(s, "cell")
        self.add_state("x", float(s.get("x", 0.0)))
        for k in ("r", "g", "d", "p", "q", "c", "w", "u"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("y", 0.0)
        self.add_parameter("z", 0.0)
        # event bookkeeping, written only by event actions
        for k in ("n", "tl", "m"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("nn", 0.0)

    @Equation()
    def eval(self, scope):
        scope.y = scope.p * scope.x + scope.q * scope.u
        scope.z = scope.y + scope.w + scope.c * scope.global_vars.t
        scope.x_dot = scope.r + scope.g * scope.u - scope.d * scope.x
        scope.nn = scope.n + 1000.0 * scope.m + scope.tl


class SCellEq(Described):
    """a cell that can be a member of an item set"""

    def __init__(self, s):
        super().__init__(s, "scell")
        self.add_state("x", float(s.get("x", 0.0)))
        for k in ("r", "g", "d", "p", "q", "u"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("y", 0.0)
        for k in ("n", "tl", "m"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("nn", 0.0)

    @Equation()
    def eval(self, scope):
        scope.y = scope.p * scope.x + scope.q * scope.u
        scope.x_dot = scope.r + scope.g * scope.u - scope.d * scope.x
        scope.nn = scope.n + 1000.0 * scope.m + scope.tl


class PairEq(Described):
    """two coupled states: a' = b ; b' = -k*a - f*b + r"""

    def __init__(self, s):
        super().__init__(s, "pair")
        self.add_state("a", float(s.get("a", 0.0)))
        self.add_state("b", float(s.get("b", 0.0)))
        for k in ("k", "f", "r"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("e", 0.0)
        for k in ("n", "tl", "m"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("nn", 0.0)

    @Equation()
    def eval(self, scope):
        scope.a_dot = scope.b
        scope.b_dot = scope.r - scope.k * scope.a - scope.f * scope.b
        scope.e = scope.b * scope.b + scope.k * scope.a * scope.a
        scope.nn = scope.n + 1000.0 * scope.m + scope.tl


class StaticEq(Described):
    """No state: y = p*u + q ; for systems driven by data and events only."""

    def __init__(self, s):
        super().__init__(s, "static")
        for k in ("p", "q", "u", "v", "n", "tl", "m"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("y", 0.0)
        self.add_parameter("yv", 0.0)
        self.add_parameter("nn", 0.0)

    @Equation()
    def eval(self, scope):
        scope.y = scope.p * scope.u + scope.q
        scope.yv = scope.v * 2.0
        scope.nn = scope.n + 1000.0 * scope.m + scope.tl


class TotalEq(Described):
    def __init__(self, s):
        super().__init__(s, "total")
        self.add_parameter("s", float(s.get("s", 0.0)))
        self.add_parameter("k", float(s.get("k", 2.0)))
        self.add_parameter("s2", 0.0)

    @Equation()
    def eval(self, scope):
        scope.s2 = scope.k * scope.s


class BranchEq(Described):
    """a branch in the equation: y = p*v above the level, else q"""

    def __init__(self, s):
        super().__init__(s, "branch")
        for k in ("p", "q", "v", "lev", "n", "tl", "m"):
            self.add_parameter(k, float(s.get(k, 0.0)))
        self.add_parameter("y", 0.0)
        self.add_parameter("nn", 0.0)

    @Equation()
    def eval(self, scope):
        scope.y = scope.p * scope.v if scope.v > scope.lev else scope.q
        scope.nn = scope.n + 1000.0 * scope.m + scope.tl


def _item(eq):
    class It(Item):
        def __init__(self, s):
            super().__init__(s["tag"])
            ns = self.create_namespace("t1")
            ns.add_equations([eq(s)])
    It.__name__ = eq.__name__.replace("Eq", "")
    return It


KINDS = {"cell": _item(CellEq), "scell": _item(SCellEq), "static": _item(StaticEq),
         "total": _item(TotalEq), "pair": _item(PairEq), "branch": _item(BranchEq)}

EV = ("n", "tl", "m", "nn")
VARS = {
    "cell": ("x", "r", "g", "d", "p", "q", "c", "w", "u", "y", "z") + EV,
    "scell": ("x", "r", "g", "d", "p", "q", "u", "y") + EV,
    "static": ("p", "q", "u", "v", "y", "yv") + EV,
    "total": ("s", "k", "s2"),
    "pair": ("a", "b", "k", "f", "r", "e") + EV,
    "branch": ("p", "q", "v", "lev", "y") + EV,
}
STATES = {"cell": {"x": "x_dot"}, "scell": {"x": "x_dot"}, "static": {}, "total": {}, "branch": {},
          "pair": {"a": "a_dot", "b": "b_dot"}}
DERIVED = {"cell": ("y", "z", "nn"), "scell": ("y", "nn"), "static": ("y", "yv", "nn"), "total": ("s2",),
           "pair": ("e", "nn"), "branch": ("y", "nn")}
DEFAULTS = {"total": {"k": 2.0}}


def evaluate(kind, v, t):
    """algebraic equations, written independently of the program's compiler"""
    if kind == "cell":
        v["y"] = v["p"] * v["x"] + v["q"] * v["u"]
        v["z"] = v["y"] + v["w"] + v["c"] * t
    elif kind == "scell":
        v["y"] = v["p"] * v["x"] + v["q"] * v["u"]
    elif kind == "static":
        v["y"] = v["p"] * v["u"] + v["q"]
        v["yv"] = v["v"] * 2.0
    elif kind == "total":
        v["s2"] = v["k"] * v["s"]
        return
    elif kind == "pair":
        v["e"] = v["b"] * v["b"] + v["k"] * v["a"] * v["a"]
    elif kind == "branch":
        v["y"] = v["p"] * v["v"] if v["v"] > v["lev"] else v["q"]
    v["nn"] = v["n"] + 1000.0 * v["m"] + v["tl"]


def derivative(kind, v):
    if kind in ("cell", "scell"):
        return {"x": v["r"] + v["g"] * v["u"] - v["d"] * v["x"]}
    if kind == "pair":
        return {"a": v["b"], "b": v["r"] - v["k"] * v["a"] - v["f"] * v["b"]}
    return {}
