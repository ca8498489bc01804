#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]"""
import argparse
import os
import sys

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.chdir(HERE)
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violations")
    a = ap.parse_args()
    from dst import runner
    if a.replay:
        return runner.replay_file(a.property, a.replay)[0]
    return runner.run_check(a.property, a.tier, a.seed, a.runs, a.workers, a.v, not a.all)


if __name__ == "__main__":
    sys.exit(main())
