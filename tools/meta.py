"""Writes properties.jsonl and MANIFEST.json from one place."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM, IFC, CM = "numerous/engine/simulation/simulation.py", "numerous/engine/simulation/solver_interface.py", \
    "numerous/engine/model/compiled_model.py"
MODEL, EXT = "numerous/engine/model/model.py", "numerous/engine/system/external_mappings/external_mappings.py"
HIST, LOAD = "numerous/utils/historian.py", "numerous/utils/data_loader.py"
EVT, EVA = "numerous/engine/numerous_event.py", "numerous/engine/model/utils.py"


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=a)


PROPS = []
LEVELS = {}
NA = []
exec(open(os.path.join(HERE, "tools", "props_text.py")).read())

TECH = "deterministic simulation with fault injection: seeded search over generated systems, schedules and faults, "
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in PROPS:
    if p["id"] in LEVELS:
        lvl, oracle, note = LEVELS[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
                           technique=TECH + oracle, level=lvl, level_note=note))
claimed = {c["property"] for c in checks}
na = [dict(property=i, reason=r) for i, r in NA]
assert {x["property"] for x in na} | claimed == {p["id"] for p in PROPS}, \
    {p["id"] for p in PROPS} ^ ({x["property"] for x in na} | claimed)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na), f,
              indent=1)
    f.write("\n")
