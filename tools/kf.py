"""Writes known_findings.json (run by hand): findings that are open, with the history that fails, and the repaired ones."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EULER = dict(method="Euler", atol=1e-9, rtol=1e-6)
OPEN = [
    dict(id="KF1", property="P06", status="open", **{"class": "crossing-count:clocked-condition"},
         what="a state event whose condition depends on the time itself runs about a hundred times at one crossing "
              "(third-party solver: the event is handled a microsecond before the crossing it located, and again)",
         scenario=dict(label="clocked-condition", exact=[["a.n", 1.0]],
                       spec=dict(tag="s", items=[dict(tag="a", kind="cell", c=1.0)], grid=dict(t0=0.0, t1=2.0, n=4),
                                 maps=[], sums=[], hist=dict(type="mem", size=0), solver=EULER,
                                 events=[dict(key="k", type="state", cond=["a.z", 1.0437], dir=1, do=[["add", "a.n", 1.0]])]))),
    dict(id="KF2", property="P06", status="open", **{"class": "crossing-count:again-in-the-same-step"},
         what="a quantity that the action of a state event puts back below the level and that crosses it again before the "
              "next step ends does not run the action again (third-party solver: keeps the sign the condition had before the action)",
         scenario=dict(label="again-in-the-same-step", exact=[["a.n", 10.0]],
                       spec=dict(tag="s", items=[dict(tag="a", kind="cell", x=-3.375, r=1.5, p=1.0)],
                                 grid=dict(t0=0.5, t1=2.5, n=2), maps=[], sums=[], hist=dict(type="mem", size=0),
                                 solver=EULER,
                                 events=[dict(key="k", type="state", cond=["a.y", -2.8313], dir=1,
                                              do=[["add", "a.x", -0.25], ["add", "a.n", 1.0]])]))),
]
FIXED = """P09 5f2e270 two models built in one process shared their kernel functions, so that the first computed with the equations of the second
P01 8506631 history rows in which a variable is NaN were dropped
P01 e7cb4df a row could be handed twice to the history, or to the historian, or to neither, when the buffer overflowed at an event
P13 8cf2339 the file historian wrote an empty or unnamed table, and overwrote the rows stored before
P15 e4b6c47 the CSV loader mixed up several files read in chunks, and assumed that the first column is the time
P03 842e789 data frames with different numbers of rows or columns could not be loaded together
P03 2ec5b2b a mapped variable could get the column or the interpolation of another one whose path contains its own
P03 25a8dd7 external data equal to those of the run before were not written at the start of a run
P03 200748b the loader was asked for data in simulation time, and not in the time unit of the file
P04 53b8caf a run that starts outside the first loaded data used the wrong rows silently
P07 f24a314 an event action that assigns a constant failed to compile
P07 964e2a4 event functions with different closure values shared one of them
P07 5518e35 an event action that writes a state and another variable wrote them to the wrong variables
P07 ffdf784 external events of an item did not reach the variables of their item
P05 eb0301a of several events with equal keys only one was run
P05 4508687 time events were lost to rounding of the time, or when the run did not start at zero
P05 c392517 external time events also ran when the solver left its loop for data or history
P08 0a681b6 a reset kept the positions of events and the state of the solver
P11 d10c816 state events and recorded rows used variables of the solver's last evaluation
P07 4bc5deb states changed by a time event were set back by the next step
P05 0c5ec93 events of items in a set were never run
P04 8d5cbc8 data rows without a time made other variables keep old data silently
P05 272d0b8 periodic events drifted from the multiples of their period, and were lost, in long runs
P07 af9b587 closures of event actions with functions of equal names used one of them for all
P13 377797c a row torn by an interrupted write was joined with the first row of the next run, or left the file without header
P15 7e957d4 the alias a variable was declared with was dropped
P19 4838c2f data set on a built model were loaded for time zero, and the row of a later start was made up from them"""
fixed = []
for ln in FIXED.splitlines():
    p, c, what = ln.split(" ", 2)
    fixed.append(dict(property=p, status="fixed", commit=c, what=what, line=f"fixed: property={p} {c} {what}"))
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump(dict(findings=OPEN + fixed), f, indent=1)
    f.write("\n")
