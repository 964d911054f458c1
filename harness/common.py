"""Running TLC, the driver, and reporting."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
REPO = os.environ.get("PROTOSYM_REPO", "/repo")
PYTHON = os.environ.get("PROTOSYM_PYTHON", "/opt/venv/bin/python")
JAR = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


class Broken(Exception):
    """The machinery failed (not a verdict about the code)."""


class Work:
    """A scratch directory holding a copy of the specification."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), self.dir)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def tlc(work, module, cfg=None, env=None, workers=8, args=(), timeout=600, heap="6g"):
    """Run TLC; returns dict with output and statistics."""
    work.n += 1
    meta = work.path(f"meta{work.n}")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work.dir}",
           "-cp", ":".join(JAR), "tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir", meta,
           "-config", (cfg or module) + ".cfg", *args, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    e["_JAVA_OPTIONS"] = ""
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=work.dir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC timed out on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    r = {"out": out, "rc": p.returncode, "wall": time.time() - t0, "gen": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if m:
        r["gen"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m.group(1))
    return r


def make_cfg(work, module, name, consts=None, spec=None, invariants=None, base=None):
    """Write name.cfg: the module's cfg with other constants."""
    with open(work.path((base or module) + ".cfg")) as f:
        text = f.read()
    for k, v in (consts or {}).items():
        if isinstance(v, bool):
            v = "TRUE" if v else "FALSE"
        elif isinstance(v, str):
            v = f'"{v}"'
        elif isinstance(v, (set, list, tuple)):
            v = "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in v) + "}"
        text, n = re.subn(rf"(?m)^\s*{k} *=.*$", lambda m: f" {k} = {v}", text)
        if n != 1:
            raise Broken(f"no constant {k} in {module}.cfg")
    if spec:
        text = re.sub(r"(?m)^SPECIFICATION.*$", "SPECIFICATION " + spec, text)
    if invariants is not None:
        text = re.sub(r"(?m)^INVARIANTS?.*$", ("INVARIANTS " + " ".join(invariants)) if invariants else "", text)
    with open(work.path(name + ".cfg"), "w") as f:
        f.write(text)
    return name


def clip(out, n=4000):
    keep = [ln for ln in out.splitlines()
            if ln.strip() and not ln.startswith(("Parsing file", "Semantic proc", "Linting of", '"'))]
    text = "\n".join(keep)
    i = text.find("*** Errors")
    return text[i:i + 700] if i >= 0 else text[-n:]


def model_check(work, module, cfg=None, expect_violation=None, **kw):
    """Check a design model; the design itself must be right."""
    r = tlc(work, module, cfg, **kw)
    if expect_violation:
        if f"Invariant {expect_violation} is violated" not in r["out"]:
            raise Broken(f"negative control {module}/{cfg}: {expect_violation} not violated\n" + clip(r["out"]))
    elif r["rc"] != 0 or "Error:" in r["out"]:
        raise Broken(f"design model {module}/{cfg} failed\n" + clip(r["out"]))
    return r


def printed_json(out):
    """JSON values printed by PrintT(ToJson(..))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"') and line.endswith('"'):
            try:
                res.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return res


def drive(work, module, scripts, env=None, timeout=800, python=None, procs=8):
    """Run scripts against the library; returns the recorded sessions."""
    work.n += 1
    inp, outp = work.path(f"scripts{work.n}.json"), work.path(f"sessions{work.n}.json")
    with open(inp, "w") as f:
        json.dump(scripts, f)
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0",
             DRIVER_PROCS=str(procs), TMPDIR=work.dir)
    e.update(env or {})
    try:
        p = subprocess.run([python or PYTHON, "-B", os.path.join(HARNESS, "driver.py"), module, inp, outp],
                           cwd=work.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("driver timed out")
    if p.returncode != 0 or not os.path.exists(outp):
        raise Broken("driver failed\n" + p.stdout.decode("utf-8", "replace")[-4000:])
    with open(outp) as f:
        return json.load(f)


def validate(work, module, sessions, cfg=None, timeout=800, heap="10g", extra=0):
    """Let TLC decide the sessions: {index: [[event, clause], ...]}."""
    work.n += 1
    path = work.path(f"traces{work.n}.json")
    with open(path, "w") as f:
        json.dump(sessions, f)
    r = tlc(work, module, cfg, env={"TRACES": path}, timeout=timeout, heap=heap)
    os.unlink(path)
    verdicts = {}
    for d in printed_json(r["out"]):
        if isinstance(d, dict) and "verdict" in d:
            verdicts[d["verdict"] - 1] = sorted([list(b) for b in d["bad"]])
    if r["rc"] != 0 or len(verdicts) != len(sessions):
        raise Broken(f"TLC decided {len(verdicts)} of {len(sessions)} sessions of {module}\n"
                     + clip(r["out"], 5000))
    return verdicts, r


class Report:
    """Collects what a check did and writes its evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.models = [], []
        self.violations = []
        self.extra = {}
        self.events = {}
        self.assumptions = []

    def model(self, name, r, exhaustive=True):
        self.states += r["distinct"]
        self.transitions += r["gen"]
        self.models.append({"model": name, "distinct_states": r["distinct"], "states_generated": r["gen"],
                            "depth": r["depth"], "wall_s": round(r["wall"], 1), "exhaustive": exhaustive})

    def sessions(self, name, sessions, verdicts, r, scripts, known=()):
        self.states += r["distinct"]
        self.transitions += r["gen"]
        self.traces += len(sessions)
        n = 0
        for s in sessions:
            for ev in s.get("ev", ()):
                n += 1
                k = ev.get("op", "?")
                self.events[k] = self.events.get(k, 0) + 1
        self.models.append({"trace_spec": name, "sessions": len(sessions), "events": n,
                            "distinct_states": r["distinct"], "wall_s": round(r["wall"], 1)})
        tried = sum(x.get("tried", 0) for x in sessions)
        if tried:
            self.models[-1]["schedules_run"] = tried
            self.models[-1]["distinct_executions"] = sum(len(x["runs"]) for x in sessions)
        if sessions and len(self.samples) < 3:
            s = sessions[len(sessions) // 2]
            self.samples.append({"kind": name, "script": scripts[s["script"]],
                                 "events": len(s.get("ev", ())), "verdict": "accepted"
                                 if not verdicts.get(len(sessions) // 2) else "rejected"})

    def violation(self, detail):
        self.violations.append(detail)

    def finish(self, level="model_checking"):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "models": self.models, "events_by_operation": self.events}
        cov.update(self.extra)
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        rdir = os.path.join(EVIDENCE, "replay")
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(self.violations[:20]):
            path = os.path.join(rdir, f"{self.prop}-{n + 1}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {json.dumps(v.get('clauses'))[:300]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        sys.stdout.flush()
        return 1 if self.violations else 0
