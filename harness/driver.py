"""Runs scripts against the library in /repo and records what happened.

usage: python driver.py MODULE scripts.json out.json

MODULE names the interpreter of the scripts (play_<module>.py, with a function
`play(script, emit)`).  Scripts run in worker processes; a worker that dies or
hangs leaves the event "crash" in the session of the script it was running.
"""
from __future__ import annotations

import importlib
import importlib.machinery
import json
import os
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

NPROC = int(os.environ.get("DRIVER_PROCS", "8"))
OP_LIMIT = float(os.environ.get("DRIVER_OP_LIMIT", "20"))
SCRIPT_LIMIT = float(os.environ.get("DRIVER_SCRIPT_LIMIT", "120"))


CODE = {}


class FreshLoader(importlib.machinery.SourceFileLoader):
    """Imports the library from its present source, whatever has been cached."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path not in CODE:
            CODE[path] = self.source_to_code(self.get_data(path), path)
        return CODE[path]


def fresh_imports():
    root = os.path.join(os.environ["PYTHONPATH"].split(os.pathsep)[0], "")

    def hook(path):
        if not os.path.join(path, "").startswith(root):
            raise ImportError
        return importlib.machinery.FileFinder(path, (FreshLoader, importlib.machinery.SOURCE_SUFFIXES))
    sys.path_hooks.insert(0, hook)
    sys.path_importer_cache.clear()
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py") and os.path.basename(d) != "__pycache__":
                path = os.path.join(d, f)
                try:
                    FreshLoader("x", path).get_code("x")
                except Exception:       # the import will say
                    pass


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout


class limit:
    """Bound the time of one library call."""

    def __init__(self, seconds=None):
        self.seconds = seconds or OP_LIMIT

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def forked(f, limit):
    """The result of f() in a new process; None when it dies."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            data = json.dumps(f()).encode()
            with os.fdopen(wr, "wb") as w:
                w.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    chunks = []
    end = time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(rd, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(rd)
    os.waitpid(pid, 0)
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return None


def worker(modname, scripts, first, step, path):
    import resource

    mem = int(os.environ.get("DRIVER_MEM_GB", "6")) << 30
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    mod = importlib.import_module("play_" + modname)
    with open(path, "a") as out:
        for n in range(first, len(scripts), step):
            out.write(json.dumps({"begin": n}) + "\n")
            out.flush()
            sess = mod.play(scripts[n])
            sess["script"] = n
            out.write(json.dumps(sess) + "\n")
            out.flush()


def main():
    modname, inp, outp = sys.argv[1:4]
    fresh_imports()
    with open(inp) as f:
        scripts = json.load(f)
    mod = importlib.import_module("play_" + modname)
    procs = {}
    nproc = min(NPROC, max(1, len(scripts)))

    def path(w):
        return f"{outp}.{w}"

    def start(w, first):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(modname, scripts, first, nproc, path(w))
                code = 0
            except BaseException:
                import traceback

                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        procs[w] = [pid, time.time(), 0]

    def progress(w):
        begun, done = None, set()
        try:
            with open(path(w)) as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in d:
                        begun = d["begin"]
                    else:
                        done.add(d["script"])
        except FileNotFoundError:
            pass
        return begun, done

    for w in range(nproc):
        start(w, w)
    failures = 0
    while procs:
        time.sleep(0.02)
        for w in list(procs):
            pid, t0, size = procs[w]
            got, status = os.waitpid(pid, os.WNOHANG)
            if got == 0:
                try:
                    now = os.path.getsize(path(w))
                except OSError:
                    now = 0
                if now != size:
                    procs[w][1:] = [time.time(), now]
                elif time.time() - t0 > SCRIPT_LIMIT:
                    os.kill(pid, signal.SIGKILL)
                continue
            del procs[w]
            if status == 0:
                continue
            failures += 1
            begun, done = progress(w)
            if begun is None or begun in done:
                print("driver: worker failed outside a script", file=sys.stderr)
                sys.exit(2)
            with open(path(w), "a") as f:
                sess = mod.crashed(scripts[begun])
                sess["script"] = begun
                f.write("\n" + json.dumps(sess) + "\n")
            if failures > 60:
                print("driver: too many crashes", file=sys.stderr)
                continue
            if begun + nproc < len(scripts):
                start(w, begun + nproc)
    sessions = {}
    for w in range(nproc):
        with open(path(w)) as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" not in d:
                    sessions[d["script"]] = d
        os.unlink(path(w))
    with open(outp, "w") as f:
        json.dump([sessions[k] for k in sorted(sessions)], f)


if __name__ == "__main__":
    main()
