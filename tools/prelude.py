# run with cwd = the repository
import logging
import os
import sys
import tempfile

sys.dont_write_bytecode = True
os.environ["TQDM_DISABLE"] = "1"
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
from numerous.engine.model import Model
from numerous.engine.simulation import Simulation
from numerous.engine.system import Item, Subsystem, ItemsStructure
from numerous.engine.system.external_mappings import ExternalMappingElement
from numerous.engine.system.external_mappings.interpolation_type import InterpolationType
from numerous.multiphysics import EquationBase, Equation
from numerous.utils.data_loader import CSVDataLoader, DataLoader, InMemoryDataLoader
from numerous.utils.historian import Historian, InMemoryHistorian, LocalHistorian
from numerous.utils.logger_levels import LoggerLevel

LIN, STEP = InterpolationType.LINEAR, InterpolationType.PIESEWISE


class Cell(EquationBase, Item):
    """x' = r + g*u, y = p*x + u"""

    def __init__(self, tag="c", x=0.0, r=1.0, g=0.0, u=0.0, p=1.0, n=0.0):
        super().__init__(tag)
        self.add_state("x", x)
        for k, v in dict(r=r, g=g, u=u, p=p, n=n).items():
            self.add_parameter(k, v)
        self.add_parameter("y", 0.0)
        self.t1 = self.create_namespace("t1")
        self.t1.add_equations([self])

    @Equation()
    def eval(self, scope):
        scope.x_dot = scope.r + scope.g * scope.u
        scope.y = scope.p * scope.x + scope.u


class System(Subsystem):
    def __init__(self, tag, items, mappings=None, loader=None, **kw):
        super().__init__(tag, mappings, loader, **kw)
        self.register_items(items)


def mapping(file, columns, start=0, mult=1):
    return ExternalMappingElement(file, "time", start, mult, columns)


def csv(path, **columns):
    pd.DataFrame(columns).to_csv(path, index=False)
    return path


def model(system, historian=None, **kw):
    return Model(system, use_llvm=False, historian=historian or InMemoryHistorian(), **kw)


def sim(m, t1, n, t0=0.0, **kw):
    return Simulation(m, t_start=t0, t_stop=t1, num=n, method=kw.pop("method", "Euler"), **kw)


def col(m, name):
    return np.array(m.historian_df[name], dtype=float)


def expect(name, got, want, tol=1e-9):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True):
        print("FAIL", name, "got", got.tolist(), "want", want.tolist())
        sys.exit(1)
