"""Making and trying planted bugs.

usage: seed.py new PLANT.py        make seeded/<id> from a description, confirm it
       seed.py try ID [PROP...]    run checks against a scratch copy with the bug
       seed.py all                 run for every planted bug the check of its property

A description sets id, prop, needs, breaks, edits = [(file, old, new)], demo (Python source).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# exits 0 when the property holds
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def tests(repo):
    """The failed stable tests."""
    env = {"PYTHONPATH": repo + "/src", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "HOME": "/root",
           "LANG": "C.UTF-8"}
    rc, out = run([PY, "-c", "import protosym; print(protosym.__file__)"], repo, env)
    assert out.startswith(repo), out
    rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                   "--benchmark-disable", "--xdoctest", "tests", "benchmarks", "src/protosym"], repo, env)
    tail = out.strip().splitlines()[-1]
    return None if rc == 0 else out[-2500:], tail


def demo(where, repo):
    return run(["bash", os.path.join(where, "demo.sh")], repo, timeout=300)


def confirm(sid):
    where = os.path.join(SEEDED, sid)
    d = scratch()
    try:
        repo = d + "/repo"
        rc, out = demo(where, repo)
        if rc != 0:
            return "demo fails on the unchanged tree\n" + out
        rc, out = run(["git", "apply", os.path.join(where, "patch.diff")], repo)
        if rc != 0:
            return "patch does not apply\n" + out
        rc, out = demo(where, repo)
        if rc == 0:
            return "demo passes with the patch\n" + out
        fails, tail = tests(repo)
        if fails:
            return "tests fail with the patch\n" + fails
        print("confirmed", sid, "|", tail, "| demo:", out.strip().splitlines()[-1][:150] if out.strip() else "")
        return None
    finally:
        shutil.rmtree(d)


def new(path):
    ns = {}
    with open(path) as f:
        exec(f.read(), ns)
    where = os.path.join(SEEDED, ns["id"])
    os.makedirs(where, exist_ok=True)
    d = scratch()
    try:
        repo = d + "/repo"
        for file, old, newtext in ns["edits"]:
            p = os.path.join(repo, "src/protosym", file)
            with open(p) as f:
                text = f.read()
            assert text.count(old) == 1, (file, old, text.count(old))
            with open(p, "w") as f:
                f.write(text.replace(old, newtext))
        rc, out = run(["git", "diff"], repo)
        with open(os.path.join(where, "patch.diff"), "w") as f:
            f.write(out)
    finally:
        shutil.rmtree(d)
    with open(os.path.join(where, "demo.sh"), "w") as f:
        f.write(ns.get("demo_sh", DEMO))
    with open(os.path.join(where, "demo.py"), "w") as f:
        f.write(ns["demo"].lstrip("\n"))
    with open(os.path.join(where, "meta.json"), "w") as f:
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, f, indent=1)
        f.write("\n")
    bad = confirm(ns["id"])
    if bad:
        shutil.rmtree(where)
        print("REJECTED", ns["id"], bad)
        return 1
    return 0


def attempt(sid, props=()):
    where = os.path.join(SEEDED, sid)
    with open(os.path.join(where, "meta.json")) as f:
        own = json.load(f)["property"]
    d = scratch()
    try:
        repo = d + "/repo"
        rc, out = run(["git", "apply", os.path.join(where, "patch.diff")], repo)
        assert rc == 0, out
        for prop in props or [own]:
            ev = d + "/evidence"
            rc, out = run(["python3", "check.py", prop], VERIF,
                          {"PROTOSYM_REPO": repo, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": ev})
            n = out.count("VIOLATION property=" + prop)
            print(f"{sid}: {prop} rc={rc} violations={n}", "" if n else out[-600:], flush=True)
            if n:
                print("   ", next(ln for ln in out.splitlines() if ln.startswith("  "))[:200])
    finally:
        shutil.rmtree(d)


def main(argv):
    if argv[1] == "new":
        return max(new(p) for p in argv[2:])
    if argv[1] == "try":
        attempt(argv[2], argv[3:])
    if argv[1] == "confirm":
        for sid in argv[2:] or sorted(os.listdir(SEEDED)):
            bad = confirm(sid)
            if bad:
                print("REJECTED", sid, bad)
    if argv[1] == "all":
        for sid in sorted(os.listdir(SEEDED)):
            attempt(sid)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
