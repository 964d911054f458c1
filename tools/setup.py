"""Parses every module of the specification (nothing is built)."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "harness"))
import common  # noqa: E402

w = common.Work()
try:
    bad = []
    mods = sorted(f for f in os.listdir(common.SPEC) if f.endswith(".tla"))
    for f in mods:
        p = subprocess.run(["java", "-cp", ":".join(common.JAR), "tla2sany.SANY", f], cwd=w.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or b"*** Errors" in p.stdout:
            bad.append(f)
            print(p.stdout.decode()[-2000:])
    print(f"{len(mods) - len(bad)} of {len(mods)} modules parsed")
finally:
    w.close()
sys.exit(1 if bad else 0)
