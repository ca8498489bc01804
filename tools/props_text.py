EXPL = "exploration"


def add(id, title, statement, over, text, why, files, mech, oracle=None, note=None, level=EXPL, observe=None, state=None):
    if not os.path.exists(os.path.join(HERE, "dst", "props", id.lower() + ".py")):
        return
    PROPS.append(P(id, title, statement, over, text, why, files, mech, observe, state))
    LEVELS[id] = (level, oracle, note)


def not_applicable(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(P(id, title, statement, over, text, why, files, mech))
    NA.append((id, reason))


HISTORY = [dict(name="recorded history", where="the model's history data frame after a run, by variable path"),
           dict(name="historian", where="the frames a historian's store() is given, and the file it writes")]
HISTORY_OBS = ["history data frame of the model after a run", "frames handed to the historian"]

add("P01", "The recorded history does not depend on how it is buffered",
    "For every system and run, the recorded history has the same rows with the same values in the same order whatever "
    "historian is used and however small its buffer is. Each row is handed to the historian exactly once, in order, and "
    "what a file historian leaves on disk is the history of the run.",
    ["inputs", "configurations", "schedules"],
    "All systems, events and data files; all buffer sizes from one row up and all historians; flushes falling on output "
    "times, event times and data loads.",
    "The tests use two or three fixed buffer sizes on fixed models; a flush interrupts the solver at a point that depends "
    "on the buffer size, the events and the data, and only some of those combinations lose or repeat a row.",
    [CM, MODEL, IFC, HIST],
    [("row buffer and its overflow", CM), ("flush on solver events", IFC), ("history frame assembly", MODEL),
     ("historian store", HIST)],
    "several runs of one system under different historians must agree",
    "Sampled systems, buffer sizes and historians; equality up to rounding (1e-9), 5e-5 where crossings are located "
    "iteratively. RK45 only without events and data.",
    observe=HISTORY_OBS, state=[("row buffer", "rows recorded and not yet handed over")])

add("P02", "A run records exactly the rows that are due",
    "A run records one row for the start, one for each output time, and one for each instant at which events were handled, "
    "in order of time and nothing else. No row is lost, repeated, moved or recorded out of order, however output times, "
    "event times, buffer flushes and data loads coincide.",
    ["inputs", "schedules", "configurations"],
    "All output grids (also ones that are not exact in binary), event instants, buffer sizes, data chunkings and solver "
    "methods.",
    "The tests look at the last row or at few rows of fixed models; coincidences of instants are a matter of the schedule.",
    [SIM, IFC, CM, MODEL],
    [("rows after steps and events", IFC), ("row buffer", CM), ("output times", SIM)],
    "expected row times from an executable reference model",
    "Sampled schedules. Instants closer than 2e-3 and crossings within 2e-3 of another instant are not generated; an "
    "instant with an external and an internal time event has no row of its own.",
    observe=HISTORY_OBS)

add("P03", "Variables driven by external data show the data at every time",
    "At every output time a variable mapped to a data column equals the value of that column at that time: linear between "
    "the two surrounding rows, or that of the last row at or before it, as asked for. This holds for every loader, "
    "chunking, number and shape of files, column order, first row and time unit, for nested subsystems, and for all "
    "variables and states computed from such data.",
    ["inputs", "configurations", "schedules"],
    "All data files, mappings, loaders and chunk sizes, with events that cut the solver's steps between data rows.",
    "The tests use one or two fixed files with chunks that divide them evenly and a time axis from zero.",
    [EXT, "numerous/engine/system/external_mappings/interpolation_type.py", LOAD, CM, IFC, MODEL],
    [("unpacking of mappings and data", EXT), ("interpolation and writing of values", CM), ("reload when data run out", IFC),
     ("chunked reading", LOAD)],
    "values from an executable reference model",
    "Sampled data, chunkings and schedules; states integrate only data that change at output times; tolerance 1e-7.",
    observe=["history data frame", "load calls of the data loader"])

add("P04", "Missing or broken data are reported, never made up",
    "If the data of a run do not cover its time span, or a file or column is missing, a read fails, or the loader serves no "
    "rows or old ones, the run ends with an error. No output row is recorded for a time without data, all rows recorded "
    "before are right, and a run whose data do cover it is not refused.",
    ["fault_sequences", "crash_points", "inputs"],
    "All faults of the data (rows missing at either end, missing file or column, torn file, failing, empty or stale loads "
    "at any call) in all systems fed from data.",
    "The tests have one case of data that end early; the outcome depends on which load meets the fault and what is due "
    "at that time.",
    [EXT, LOAD, IFC, CM, SIM],
    [("coverage check after a load", IFC), ("range of loaded data", EXT), ("need for a load", CM), ("chunk lookup", LOAD)],
    "loud-or-covered verdict per injected data fault; recorded prefix against a reference model",
    "One data fault per run, sampled over kinds and positions. A file torn within the digits of a time is not "
    "distinguishable from another file and is not generated.",
    level="fault_enumeration", observe=["exceptions of the run", "history data frame", "load calls"])

add("P05", "Time events run exactly once at each of their instants",
    "The action of a time event with time stamps runs once at each stamp within the run, that of a periodic event once at "
    "each multiple of its period, at the right time and at no other, in order of time. This holds for any order of stamps, "
    "any start time, events that coincide with each other, with output times or with data loads, equal keys, internal and "
    "external actions, and events of items, subsystems and the model.",
    ["schedules", "inputs", "configurations"],
    "All sets of time events, hosts, output grids, buffer sizes and data chunkings.",
    "The tests have few events at round times starting at zero.",
    [IFC, EVT, MODEL, "numerous/engine/model/events.py", EVA],
    [("next time and due check of events", IFC), ("collection of events of items and the model", MODEL),
     ("event actions", EVA)],
    "firing times and counters from an executable reference model",
    "Sampled; instants of one run are equal or at least 2e-3 apart; events of one instant are handled in the order "
    "items first, then model, and internal before external, or commute.",
    observe=["calls of external actions", "counter variables in the history"])

add("P06", "State events fire once per crossing, at the crossing",
    "When the quantity a state event observes crosses its level in the direction of the event, the action runs once, at the "
    "time of the crossing, and the effects show from then on; it does not run without a crossing or for the opposite "
    "direction. After the action the quantity is observed anew, so that it may cross again.",
    ["schedules", "inputs", "histories"],
    "All piecewise linear trajectories, levels, directions and actions, with time events and data in between.",
    "The tests have a bouncing ball and few fixed crossings.",
    [IFC, EVT, EVA, MODEL, CM],
    [("condition evaluation on trial states", IFC), ("condition and action functions", EVA)],
    "crossing times from an executable reference model that locates them exactly",
    "Sampled; Euler with atol 1e-9 so that the located time is within 1e-5; crossings within 2e-3 of another instant or "
    "sensitive to the solver's microsecond offset are not generated. Two defects of the third-party solver are listed in "
    "known_findings.json.",
    observe=["calls of external actions", "history data frame"])

add("P07", "An event action changes what it assigns, and nothing else",
    "After events were handled, each variable an action assigned has the assigned value, computed from the variables as they "
    "were when the action ran, every variable computed from it has followed, states go on from the assigned value, and every "
    "other variable is unaffected. This holds for every host, any number of events at one instant, and whatever the buffer "
    "and the data do at that time.",
    ["inputs", "histories", "schedules"],
    "All actions, hosts, variables (states, parameters, in nested subsystems and sets), and sequences of events.",
    "The tests look at one or two variables of fixed systems after one event.",
    [IFC, EVA, "numerous/engine/model/events.py", MODEL, CM],
    [("writing modified variables back", IFC), ("translation of actions", EVA), ("variable order", MODEL)],
    "every cell of the history against an executable reference model",
    "Sampled; piecewise linear systems; every variable of every row is compared (1e-7, or 2e-4 with crossings), except "
    "columns that are not determined between solver steps.",
    observe=HISTORY_OBS)

add("P08", "After a reset a model runs as if it were new",
    "Whatever was done with a simulation before (a full run, single steps, changed variables, a run broken off by an "
    "exception or crash at any point), after a reset, or with a new simulation on the same model, the next run records the "
    "history of the first run of a new model. Its events, its external data, its historian and its functions to run after "
    "solving take part as in a first run.",
    ["histories", "crash_points", "fault_sequences", "inputs"],
    "All sequences of runs, partial runs and failures at any call of any seam, followed by a reset or a new simulation.",
    "The tests reset once, after a complete run, and compare few values.",
    [SIM, MODEL, IFC, CM, EXT, LOAD],
    [("reset of simulation, model and solver", SIM), ("initial values", MODEL), ("reset of event positions", IFC),
     ("reset of the row buffer", CM)],
    "the run after the reset must equal a run of a fresh model",
    "Sampled lives of one to three runs; faults at post steps, loads, actions, stores and run-after functions.",
    observe=HISTORY_OBS + ["calls of external actions and of run-after functions"])

add("P09", "Simulations in one process do not influence each other",
    "Several models and simulations in one process, of systems with equal names and equal classes of items, with events, "
    "data and historians of their own, built, run, stepped, reset and failing in any interleaving, each record the history "
    "they record when alone, and run the same event actions.",
    ["schedules", "histories", "inputs"],
    "All interleavings of the life cycles of two or three systems in one process, with shared names, loaders and functions.",
    "The tests run one model after the other and never interleave two; state shared by mistake shows only then.",
    [SIM, MODEL, IFC, CM, EXT, HIST, "numerous/engine/numerous_event.py", "numerous/engine/model/namespace.py"],
    [("construction and run of a simulation", SIM), ("collection of items, variables and events", MODEL),
     ("event registration", EVT), ("historians and buffers", HIST)],
    "each system's history must equal that of a run of its own in a fresh process",
    "Sampled interleavings of two or three systems, one thread, at the granularity of calls of the public interface.",
    observe=HISTORY_OBS + ["calls of external actions"])

add("P10", "Running step by step gives what running at once gives",
    "Advancing a simulation by single steps, over whatever lengths, gives at the end of each step the state, and altogether "
    "the events and the rows, which one run to the same time gives. A variable changed between steps has its new value "
    "in the step that follows, and nothing else changes.",
    ["schedules", "histories", "inputs"],
    "All divisions of the time axis, changes between steps, events, data loads and flushes within and on the ends of steps.",
    "The tests make few steps of equal length without events or data.",
    [SIM, IFC, CM, EXT],
    [("single steps", SIM), ("solver interface", IFC), ("row buffer and data", CM)],
    "rows, states and event calls from an executable reference model, or those of a run at once",
    "Sampled divisions; for smooth systems equal within the tolerance of the solver.",
    observe=HISTORY_OBS + ["calls of external actions"])

add("P11", "Each row of the history is one consistent state",
    "In every recorded row all variables belong to one and the same state of the system at the time of the row: variables "
    "computed by equations, sums, mappings and data columns have the values these give for the states, parameters and data "
    "of this row, also in rows recorded for events, at the start, after steps that were tried and rejected, and with "
    "states and parameters assigned at that instant.",
    ["inputs", "schedules"],
    "All systems, solver methods, events and data, including systems whose trajectories have no closed form.",
    "The tests look at few variables of few rows; a value left over from a trial step of the solver is plausible.",
    [CM, IFC, MODEL, "numerous/engine/model/ast_parser/parser_ast.py"],
    [("evaluation before recording", IFC), ("recording", CM), ("history assembly", MODEL)],
    "every row is put into an independent evaluation of the system's equations",
    "Sampled systems; every derived variable of every row is compared (1e-9 relative).",
    observe=HISTORY_OBS)

SUBS = "numerous/engine/system/subsystem.py"
VARF = "numerous/engine/variables.py"

add("P12", "A run is a function of the model and its inputs alone",
    "Two runs of the same system with the same data give identical histories, event calls and hook calls, whatever unique "
    "identifiers are drawn for its parts, however strings are hashed in the process, and however often and in whichever "
    "process it is built. The order in which items, mappings, sum terms and data columns are put together does not change "
    "the history by more than rounding.",
    ["configurations", "inputs", "histories"],
    "All systems; all identifiers that uuid1 and uuid4 can draw, all hash seeds, all orders of putting a system together.",
    "The tests draw one set of identifiers per process and compare with tolerances; an order taken from a set or from "
    "identifiers differs rarely, and the result stays plausible.",
    [MODEL, VARF, "numerous/engine/model/graph_representation/graph.py", "numerous/engine/model/ast_parser/parser_ast.py",
     SUBS],
    [("identifiers of variables, items and scopes", VARF), ("collection and order of variables and equations", MODEL),
     ("sorting of the graph of equations and mappings", "numerous/engine/model/graph_representation/graph.py"),
     ("registration of items", SUBS)],
    "identifiers, hash seeds and orders of registration are decided by the seed; the histories must be identical",
    "Identifiers come from a seam at uuid and random; hash seeds from interpreters started with them. Orders are not "
    "permuted where two items have events, since these take place in the order of the items.",
    observe=HISTORY_OBS)

add("P13", "What a file historian has accepted survives a crash",
    "When the process ends at any point, or any write, open or close of the disk fails or is cut short, the file of a file "
    "historian holds the beginning of the history: every row handed over is there completely and once, under one header, "
    "and at most the end of the last row is missing. An error of the disk ends the run with that error. A later run with "
    "the same file adds complete rows after the complete rows it finds.",
    ["crash_points", "fault_sequences", "histories"],
    "All systems and buffer sizes; an end of the process at any seam or byte written; all failures of single disk calls, full "
    "disks and short writes.",
    "The tests write one file to the end, and read it; they never stop in a write, run out of space or go on with a file "
    "that was left.",
    [HIST, MODEL, IFC],
    [("file historian", HIST), ("handing over of rows", MODEL), ("flush on solver events", IFC)],
    "a simulated disk cuts, fails or ends the process in any call; the file must be the beginning of that of an "
    "undisturbed run",
    "An end of the process, not of the machine: what a call has written counts as kept.",
    level="fault_enumeration", observe=["the file of the historian"],
    state=[("file", "header and rows handed over so far")])

add("P14", "Hooks are called when they are due, and on complete states",
    "The post-step functions of the system and of all systems nested in it are called, each exactly once, after each step "
    "that the solver keeps and never for one it rejects, on the state at the end of that step, at least once for each "
    "output time. The run-after functions of all of them are called exactly once at the end of each complete run, on the "
    "complete history, and not at all by single steps or by a run that fails.",
    ["schedules", "inputs", "fault_sequences"],
    "All systems and nestings, solver methods, events, data, runs repeated after resets and runs that fail.",
    "The tests call one hook of one flat system in one short run.",
    [SIM, IFC, CM, SUBS],
    [("collection of the functions", SUBS), ("post-step calls", IFC), ("calls after the run", SIM)],
    "calls and the states they find are recorded and compared with those due",
    "A clock state in every system tells which state a call finds. The exact number of steps is checked where output "
    "times alone decide it.",
    observe=["calls of the functions", "variables during a call"])

add("P15", "The logger level selects columns and changes nothing else",
    "The history has a column for exactly the variables whose logger level is at least that of the model, each reachable "
    "under its path and its alias, singly and in lists, and with the same values, rows and event calls as when everything "
    "is recorded. A file historian writes the same columns, each once.",
    ["configurations", "inputs"],
    "All systems, all assignments of levels and aliases to variables, all levels of the model, buffer sizes and historians.",
    "The tests give three variables of one item one level each, and do not compare values between levels.",
    [MODEL, VARF, "numerous/engine/model/aliased_dataframe.py", "numerous/multiphysics/equation_base.py", HIST],
    [("selection of the logged variables", MODEL), ("names of columns", "numerous/engine/model/aliased_dataframe.py"),
     ("declaration of variables", "numerous/multiphysics/equation_base.py")],
    "every level's history must be the selected part of the complete one",
    "Sampled assignments; aliases are unique.", observe=HISTORY_OBS)

add("P16", "Data loaders serve the rows asked for, after any requests",
    "Whatever was asked before, of this file or others, forwards, backwards or beyond the ends, a loader asked for a time "
    "gives a gapless run of the rows of the file with all its columns and true values, which includes the last row at or "
    "before that time (or the first row) and the next row if there is one. A read that fails is reported, not answered, "
    "and does not spoil later requests. Rows added to a file are found by later requests.",
    ["histories", "fault_sequences", "inputs"],
    "All files, chunk sizes and sequences of requests of several readers, with any read failing or cut short.",
    "The tests read forwards through one file in one simulation.",
    [LOAD],
    [("position in each file", LOAD), ("chunks up to the row after the time", LOAD)],
    "each answer is compared with the file's rows",
    "The loader is run by itself, on a simulated disk; systems using it are in P03 and P04.",
    level="fault_enumeration", observe=["frames returned by load"])

add("P17", "An error in a user's function stops the run and is reported as it is",
    "An exception that a function of the user raises (post-step function, external action, data loader, historian, run-after "
    "function), at any call, ends the run at that call and reaches the caller as the same exception. None of the user's "
    "functions is called afterwards. The rows recorded up to then are kept, and are the first rows of the undisturbed run.",
    ["fault_sequences", "inputs"],
    "All systems and buffer sizes; any call of any of the user's functions raising any exception, in runs at once or by steps.",
    "The tests have no function that fails in the middle of a run.",
    [SIM, IFC, CM, MODEL, EXT],
    [("solver interface", IFC), ("handing over of rows", MODEL), ("loading of data", EXT)],
    "one call of one function raises; what follows is compared with the undisturbed run",
    "Event functions that are compiled are not made to fail.", level="fault_enumeration",
    observe=HISTORY_OBS + ["calls of the user's functions"])

add("P18", "The recorded trajectory solves the equations of the system",
    "The states recorded and reached are those the equations of the system give, through all mappings, sums, nested systems and "
    "dependences on the time, within the tolerance asked of the solver, whatever output times, largest step or division "
    "into single steps is chosen.",
    ["inputs", "configurations", "schedules"],
    "All coupled systems with smooth solutions, all output times, largest steps and divisions.",
    "The tests compare a few fixed models on one grid each.",
    [IFC, CM, MODEL, "numerous/engine/model/ast_parser/parser_ast.py",
     "numerous/engine/model/graph_representation/mappings_graph.py"],
    [("derivatives for the solver", IFC), ("evaluation of the equations", CM),
     ("order of equations and mappings", "numerous/engine/model/graph_representation/mappings_graph.py")],
    "states are compared with an independent integration of the same equations",
    "RK45 at rtol 1e-8, accepted within 2e-4; sampled systems that stay bounded.", observe=HISTORY_OBS)

add("P19", "Data set on a built model act like data the system was built with",
    "Data files given to a model through set_external_mappings, before its first run or between runs, in place of those set "
    "before or beside those of its systems, act as if the system had been built with them: the next run records the "
    "same rows, and data that were replaced have no effect on it. This holds after complete, partial and failed runs, with "
    "a reset or a new simulation before or after, and from any start time.",
    ["histories", "configurations", "fault_sequences"],
    "All sequences of setting data, running, stepping, failing, resetting; all files, loaders, chunk sizes and mapped variables.",
    "The tests set data once, for one run that starts at zero, with a file that is loaded at once.",
    [MODEL, SIM, EXT, CM, IFC],
    [("setting of mappings", MODEL), ("data at the start of a run", SIM), ("unpacking of mappings", EXT)],
    "the next run must equal that of a model built with the data, and the reference model's values",
    "Sampled histories of one to four sets of data; a variable that is no longer mapped is reset first.",
    observe=HISTORY_OBS + ["load calls of the data loaders"])
