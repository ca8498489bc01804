IFACE = "numerous/engine/simulation/solver_interface.py"
CMOD = "numerous/engine/model/compiled_model.py"
SIMF = "numerous/engine/simulation/simulation.py"
MOD = "numerous/engine/model/model.py"
EXTF = "numerous/engine/system/external_mappings/external_mappings.py"
LOADF = "numerous/utils/data_loader.py"
HISTF = "numerous/utils/historian.py"
EVF = "numerous/engine/model/events.py"
NEV = "numerous/engine/numerous_event.py"
VARF = "numerous/engine/variables.py"

seed("S01", "P01", IFACE, """        elif event_id == SolveEvent.HistorianAndExternalUpdate:
            self._model.create_historian_df()
            self._nm.historian_reinit()
            self.load_external_data(t)""", """        elif event_id == SolveEvent.HistorianAndExternalUpdate:
            self.load_external_data(t)
            self._nm.historian_reinit()""",
     "the row buffer fills up at the same step at which data run out",
     "the rows in the buffer are dropped instead of handed over when a data load falls on a flush",
     """
d = tempfile.mkdtemp()
f = csv(d + "/a.csv", time=[0.0, 1, 2, 3, 4, 5, 6, 7, 8, 9], u=[0.0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
def action(t, variables):
    variables['s.c.t1.n'] = t
def run(size):
    h = Historian(size) if size else InMemoryHistorian()
    m = model(System("s", [Cell()], [mapping(f, {"s.c.t1.u": ("u", LIN)})], CSVDataLoader(chunksize=2)), h)
    m.add_timestamp_event("e", action, timestamps=[1.5, 3.5, 5.5])
    s = sim(m, 8, 8)
    s.solve()
    return col(m, "time"), col(m, "s.c.t1.u")
for size in (0, 2, 3, 4, 5, 6, 7, 20):
    t, u = run(size)
    expect(f"times with buffer {size}", t, [0, 1, 1.5, 2, 3, 3.5, 4, 5, 5.5, 6, 7, 8])
    expect(f"data with buffer {size}", u, np.floor(t))
""")

seed("S02", "P02", MOD, "axis=0, sort=False, ignore_index=True),", "axis=0, sort=False).drop_duplicates('time'),",
     "an event row and the output row of the same time, handed over in different flushes",
     "rows of one time in different flushes are taken for repetitions, and the later is dropped",
     """
def action(t, variables):
    variables['s.c.t1.n'] = 5.0
m = model(System("s", [Cell()]), Historian(2))
m.add_timestamp_event("e", action, timestamps=[1.0, 2.0, 3.0])
s = sim(m, 4, 4)
s.solve()
expect("times", col(m, "time"), [0, 1, 1, 2, 2, 3, 3, 4])
""", more=[(MOD, """                                                 aliases=self.aliases, rename_columns=True)

        else:""", """                                                 aliases=self.aliases, rename_columns=True)
            self.historian_df.df.reset_index(drop=True, inplace=True)

        else:""")])

seed("S03", "P03", CMOD, "side='right') - 1", "side='left') - 1",
     "step-wise data at times so large that the tolerance is lost in rounding",
     "at large times the value of the row before is used at the time of a data row",
     """
base = 4096.0
df = pd.DataFrame(dict(time=base + np.arange(8.0), u=np.arange(8.0) * 2))
m = model(System("s", [Cell()], [mapping("d", {"s.c.t1.u": ("u", STEP)})], InMemoryDataLoader(df)))
s = sim(m, base + 6, 6, t0=base)
s.solve()
expect("data", col(m, "s.c.t1.u"), np.arange(7.0) * 2)
""")

seed("S04", "P03", CMOD, "if np.array_equal(next_values, self.previous_external_mappings):",
     "if np.allclose(next_values, self.previous_external_mappings):",
     "data that change by little from one time to the next",
     "small changes of external data are not taken over, so that slowly changing data lag behind",
     """
u = 20.0 + 1e-5 * np.arange(12)
df = pd.DataFrame(dict(time=np.arange(12.0), u=u))
m = model(System("s", [Cell()], [mapping("d", {"s.c.t1.u": ("u", LIN)})], InMemoryDataLoader(df)))
s = sim(m, 10, 10)
s.solve()
expect("data", col(m, "s.c.t1.u"), u[:11], 1e-9)
""")

seed("S05", "P04", IFACE, "        if t > max_external_t:\n            raise", "        if t > max_external_t * (1 + 1e-2):\n            raise",
     "data that end shortly before the end of a run at large times",
     "a relative tolerance lets runs go on with made-up data after the last row of data",
     """
d = tempfile.mkdtemp()
f = csv(d + "/a.csv", time=1000.0 + np.arange(6), u=np.arange(6.0))
m = model(System("s", [Cell()], [mapping(f, {"s.c.t1.u": ("u", LIN)})], CSVDataLoader(chunksize=2)))
s = sim(m, 1008, 8, t0=1000.0)
try:
    s.solve()
except ValueError:
    sys.exit(0)
print("FAIL: data end at 1005, and the run went on to", col(m, "time").tolist(), col(m, "s.c.t1.u").tolist())
sys.exit(1)
""", more=[(IFACE, "        if t < min_external_t:\n", "        max_external_t = max(t, max_external_t)\n        if t < min_external_t:\n")])

seed("S06", "P05", EVF, """        if event.is_external:
            continue
        action = event.action.ast_func""", """        action = event.action.ast_func""",
     "an internal event that was added after an external one of the same kind",
     "actions are numbered without the external events, so internal events run the action of another event",
     """
fired = []
def ext(t, variables):
    fired.append(t)
def first(t, variables):
    variables['s.c.t1.n'] = variables['s.c.t1.n'] + 1.0
def second(t, variables):
    variables['s.c.t1.r'] = 3.0
m = model(System("s", [Cell()]))
m.add_timestamp_event("e", ext, timestamps=[1.0], is_external=True)
m.add_timestamp_event("f", first, timestamps=[2.0])
m.add_timestamp_event("g", second, timestamps=[3.0])
s = sim(m, 4, 4)
s.solve()
t = col(m, "time")
expect("n", col(m, "s.c.t1.n")[-1], 1.0)
expect("r", col(m, "s.c.t1.r")[-1], 3.0)
expect("r before", col(m, "s.c.t1.r")[t < 2.9].max(), 1.0)
""", more=[(EVF, "    for idx, event in enumerate(event_functions):\n",
            "    for idx, event in enumerate([e for e in event_functions if not e.is_external]):\n")])

seed("S07", "P06", IFACE, """                vars = self._get_variables_modified(interface, t, y)
                return""", """                vars = interface._get_variables().copy()
                vars[interface.model.numba_model.state_idx] = y
                return""",
     "a state event whose condition looks at a variable computed by equations",
     "conditions see computed variables of an earlier state",
     """
hits = []
def cond(t, states):
    return states['s.c.t1.y'] - 3.3
def act(t, variables):
    hits.append(t)
m = model(System("s", [Cell()]))
m.add_event("e", cond, act, direction=1, is_external=True)
s = sim(m, 8, 8, atol=1e-9, rtol=1e-9)
s.solve()
expect("times of the crossing", hits, [3.3], 1e-4)
""")

seed("S08", "P07", MOD, """            self.variables[k].value = vars[v]
""", """            if not np.isclose(self.variables[k].value, vars[v]):
                self.variables[k].value = vars[v]
""",
     "an external event at a time when a state has changed by little since the one before",
     "an external event sets variables which have changed by little back to earlier values",
     """
def action(t, variables):
    variables['s.c.t1.n'] = variables['s.c.t1.n'] + 1.0
m = model(System("s", [Cell(x=1000.0, r=0.002)]))
m.add_timestamp_event("e", action, periodicity=1.0, is_external=True)
s = sim(m, 6.5, 13)
s.solve()
expect("n at the end", col(m, "s.c.t1.n")[-1], 7.0)
expect("x at the end", col(m, "s.c.t1.x")[-1], 1000.013, 1e-10)
""")

seed("S09", "P08", SIMF, """        self.model.historian_df = None
        self.model.numba_model.historian_reinit()
""", """        self.model.historian_df = None
""",
     "a run that breaks off with rows in the buffer, then a reset",
     "rows of the run that was broken off appear in the history of the next one",
     """
bad = [True]
def action(t, variables):
    if bad[0]:
        raise RuntimeError("action")
m = model(System("s", [Cell()]))
m.add_timestamp_event("e", action, timestamps=[2.5], is_external=True)
s = sim(m, 4, 4)
try:
    s.solve()
    raise SystemExit("FAIL: no exception")
except RuntimeError:
    pass
bad[0] = False
s.reset(0.0)
s.solve()
expect("times", col(m, "time"), [0, 1, 2, 3, 4])
expect("x", col(m, "s.c.t1.x"), [0, 1, 2, 3, 4], 1e-6)
""")

seed("S10", "P08", MOD, """            self.variables[var_id].value = v
            self.var_write(v, self.vars_ordered_values[var_id])

    def get_variables_initial_values""", """            self.variables[var_id].value = v
            self._initial_variables_dict[var_id] = v
            self.var_write(v, self.vars_ordered_values[var_id])

    def get_variables_initial_values""",
     "variables changed by set_variables, then a reset",
     "a changed variable keeps its value over a reset",
     """
m = model(System("s", [Cell()]))
s = sim(m, 4, 4)
s.solve()
first = col(m, "s.c.t1.x")
s.reset(0.0)
m.set_variables({"s.c.t1.r": 2.0})
s.solve()
expect("changed rate", col(m, "s.c.t1.x")[-1], 8.0, 1e-6)
s.reset(0.0)
s.solve()
expect("x after reset", col(m, "s.c.t1.x"), first)
""")

seed("S11", "P09", MOD, "        if self.historian_df is not None:\n            import pandas as pd\n",
     "        if self.historian_df is not None:\n            import pandas as pd\n            self.historian_df = self.historian.df\n",
     "two models with one historian object, whose runs are interleaved and hand over rows several times",
     "the history so far is kept in the historian, so that models with one historian continue each other's history",
     """
h = Historian(2)
ma = model(System("s", [Cell("c", r=1.0)]), h)
mb = model(System("s", [Cell("c", r=10.0)]), h)
sa, sb = sim(ma, 8, 8), sim(mb, 8, 8)
for i in range(8):
    sa.step_solve(float(i), 1.0)
    sb.step_solve(float(i), 1.0)
for m, r in ((ma, 1.0), (mb, 10.0)):
    m.create_historian_df()
    expect("times", col(m, "time"), np.arange(9.0))
    expect("x", col(m, "s.c.t1.x"), np.arange(9.0) * r, 1e-6)
""", more=[(MOD, "            self.historian_df = new_rows\n", "            self.historian_df = new_rows\n        self.historian.df = self.historian_df\n")])

seed("S12", "P10", VARF, """        self._value = value
        if self.llvm_idx is not None:
            self.write_variable(value, self.llvm_idx)""", """        changed = value != getattr(self, '_value', None)
        self._value = value
        if changed and self.llvm_idx is not None:
            self.write_variable(value, self.llvm_idx)""",
     "a variable that is set between steps to the value it had when it was last set, and that the solver changed since",
     "setting a variable to the value it was last set to is taken for no change",
     """
m = model(System("s", [Cell(x=1.0)]))
s = sim(m, 4, 4)
s.step_solve(0.0, 1.0)
expect("x after a step", m.get_variables()["s.c.t1.x"], 2.0, 1e-6)
m.path_to_variable["s.c.t1.x"].value = 1.0
s.step_solve(1.0, 1.0)
expect("x after the next", m.get_variables()["s.c.t1.x"], 2.0, 1e-6)
""")

seed("S13", "P07", EVF, """        body.append(action)
        body.append(ast.If(test=""", """        body.insert(0, action)
        body.append(ast.If(test=""",
     "two events whose action functions have the same name",
     "all actions are defined first, so that the last definition of a name is used for all events",
     """
class Two(Cell):
    def __init__(self, tag, value):
        super().__init__(tag)
        def action(t, variables):
            variables['t1.n'] = value
        self.add_timestamp_event("e" + tag, action, timestamps=[2.0 + value])
m = model(System("s", [Two("a", 1.0), Two("b", 2.0)]))
s = sim(m, 6, 6)
s.solve()
expect("n of a", col(m, "s.a.t1.n")[-1], 1.0)
expect("n of b", col(m, "s.b.t1.n")[-1], 2.0)
""")

seed("S14", "P08", SIMF, "        if model.numba_model:\n            self.reset(t_start)",
     "        if model.numba_model and model.historian_df is not None:\n            self.reset(t_start)",
     "a simulation that breaks off before it has handed over rows, then a new simulation of the model",
     "a new simulation goes on from the state in which the one before was left",
     """
bad = [True]
def action(t, variables):
    if bad[0]:
        raise RuntimeError("action")
m = model(System("s", [Cell()]))
m.add_timestamp_event("e", action, timestamps=[2.5], is_external=True)
s = sim(m, 4, 4)
try:
    s.solve()
    raise SystemExit("FAIL: no exception")
except RuntimeError:
    pass
bad[0] = False
s = sim(m, 4, 4)
s.solve()
expect("times", col(m, "time"), [0, 1, 2, 3, 4])
expect("x", col(m, "s.c.t1.x"), [0, 1, 2, 3, 4], 1e-6)
""")
