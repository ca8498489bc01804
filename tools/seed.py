"""Development tool: writes the planted bugs of tools/seeds.py to seeded/, and checks each in a scratch copy.
   python3 tools/seed.py write | demo [ID..] | tests [ID..] | catch [ID..]"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SEEDS = []


def seed(id, prop, file, old, new, needs, breaks, demo, more=()):
    SEEDS.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo))


exec(open(os.path.join(V, "tools", "seeds.py")).read())
ORIG = "24bcb71"


def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    c = f"/tmp/seedw_{s['id']}"
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", c], check=True)
    for file, old, new in s["edits"]:
        p = os.path.join(c, file)
        src = open(p).read()
        assert src.count(old) == 1, (s["id"], file, src.count(old))
        open(p, "w").write(src.replace(old, new))
    diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout
    # lines taken out must be lines of the original repository
    for file, _, _ in s["edits"]:
        orig = subprocess.run(["git", "-C", c, "show", f"{ORIG}:{file}"], capture_output=True, text=True).stdout.splitlines()
        cur, ok = None, False
        for line in diff.splitlines():
            if line.startswith("--- "):
                cur = line[6:]
            elif line.startswith("-") and cur == file and line[1:].strip():
                if line[1:] in orig:
                    ok = True
                else:
                    print("   not original:", s["id"], line)
    shutil.rmtree(c)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    pre = open(os.path.join(V, "tools", "prelude.py")).read()
    open(os.path.join(d, "demo.py"), "w").write(pre + "\n\n" + s["demo"].strip() + "\nprint('ok')\n")
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\nexport PYTHONPATH=\"$PWD\" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n"
        "exec timeout 250 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def copy_of(s, patched=True):
    c = f"/tmp/seedc_{s['id']}"
    shutil.rmtree(c, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    if patched:
        subprocess.run(["git", "-C", c, "apply", os.path.join(V, "seeded", s["id"], "patch.diff")], check=True)
    return c


def demo(s):
    sh = os.path.join(V, "seeded", s["id"], "demo.sh")
    out = [s["id"]]
    a = subprocess.run([sh], cwd="/repo", capture_output=True, text=True)
    c = copy_of(s)
    b = subprocess.run([sh], cwd=c, capture_output=True, text=True)
    shutil.rmtree(c)
    good = a.returncode == 0 and b.returncode == 1
    return f"{s['id']} clean={a.returncode} bug={b.returncode} {'GOOD' if good else 'BAD'} " + \
        (b.stdout + b.stderr)[-160:].replace("\n", " ") + ("" if a.returncode == 0 else " CLEAN: " + (a.stdout + a.stderr)[-700:])


def tests(s):
    c = copy_of(s)
    w = f"/tmp/seedt_{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/a/cwd")
    os.makedirs(w + "/b/cwd")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
               NUMBA_CACHE_DIR=w + "/numba", PYTHONPATH=c)
    os.makedirs(w + "/numba")
    base = [PY, "-m", "pytest", "-q", "-c", c + "/pytest.ini", "--rootdir=" + c, "-p", "no:cacheprovider",
            "--timeout=300", "--continue-on-collection-errors"]
    logs = ""
    for d, a in (("b", [c + "/tests/test_external_data.py"]),
                 ("a", ["-n", "2", "--dist", "loadfile", c + "/tests", "--ignore=" + c + "/tests/test_external_data.py"])):
        r = subprocess.run(base + a + ["-rfE", f"--junitxml={w}/{d}.xml", "-o", "junit_family=xunit2"], cwd=f"{w}/{d}/cwd", env=env, capture_output=True, text=True)
        logs += r.stdout
    r = subprocess.run(["python3", "/opt/vp/results.py", w + "/out.json", f"junit:{w}/*.xml"], capture_output=True, text=True)
    res = json.load(open(w + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(res.get("passed", res))
    bad = [t for t in stable if t not in passed]
    shutil.rmtree(c)
    shutil.rmtree(w)
    return f"{s['id']} tests: {len(bad)} stable tests fail {bad[:4]}"


def catch(s, props=None):
    c = copy_of(s)
    out = []
    for p in (props or s["prop"].split()):
        t = time.time()
        r = subprocess.run([PY, "check.py", p, "--tier", "quick", "--seed", "1"], cwd=V, env=dict(os.environ, DST_REPO=c),
                           capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        out.append(f"{s['id']} {p} rc={r.returncode} {'CAUGHT' if v and r.returncode == 1 else 'MISSED'} {time.time()-t:.0f}s " +
                   (v[0] if v else r.stdout[-200:] + r.stderr[-300:]))
    shutil.rmtree(c)
    return "\n".join(out)


if __name__ == "__main__":
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("P")]
    props = [a for a in sys.argv[2:] if a.startswith("P")]
    todo = [s for s in SEEDS if not ids or s["id"] in ids]
    if mode == "write":
        for s in todo:
            write(s)
    elif mode == "catch":
        for s in todo:
            print(catch(s, props or None), flush=True)
    else:
        with concurrent.futures.ThreadPoolExecutor(4 if mode == "tests" else 4) as ex:
            for r in ex.map(demo if mode == "demo" else tests, todo):
                print(r, flush=True)
