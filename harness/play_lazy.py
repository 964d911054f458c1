"""Interpreter of scripts run with and without optional packages (spec/TraceLazy.tla).

Nothing of the library is imported in this process: every run is a new process
that sees only the packages of its configuration.
"""
from __future__ import annotations

import os
import sys
import tempfile

from driver import forked

PACKAGES = ("sympy", "numpy", "llvmlite")
STUBS = {"isympy.py": "sympy", "numpy.libs": "numpy"}
NEEDS = {"tosym": ("sympy",), "fromsym": ("sympy",), "mtosym": ("sympy",), "mfromsym": ("sympy",),
         "lam": ("llvmlite",), "mlam": ("llvmlite", "numpy")}
MODULES = ("protosym", "protosym.core", "protosym.core.atom", "protosym.core.tree", "protosym.core.sym",
           "protosym.core.evaluate", "protosym.core.differentiate", "protosym.core.exceptions", "protosym.simplecas",
           "protosym.simplecas.expr", "protosym.simplecas.functions", "protosym.simplecas.matrix",
           "protosym.simplecas.lambdification", "protosym.simplecas.exceptions", "protosym.__main__")


SHADOWS = {}


def shadow(has):
    """A search path without the other optional packages."""
    key = tuple(sorted(has))
    if key not in SHADOWS:
        SHADOWS[key] = out = []
        for d in sys.path:
            if d.endswith("site-packages"):
                new = tempfile.mkdtemp(prefix="site-")      # in the work directory of the check
                for name in os.listdir(d):
                    owner = STUBS.get(name) or next((p for p in PACKAGES if name == p or name.startswith(p + "-")), None)
                    if owner is None or owner in has:
                        os.symlink(os.path.join(d, name), os.path.join(new, name))
                d = new
            out.append(d)
    return SHADOWS[key]


def loaded():
    return [p for p in PACKAGES if sys.modules.get(p) is not None]


def brings():
    def one(p):
        __import__(p)
        return loaded()
    return {p: forked(lambda: one(p), 60) or [] for p in PACKAGES}


def run(script, has, nodes):
    sys.path[:] = SHADOWS[tuple(sorted(has))]
    sys.path_importer_cache.clear()
    import importlib

    before = loaded()
    for m in MODULES:
        importlib.import_module(m)
    first = [{"op": "skip", "does": "import", "loaded": sorted(set(loaded()) | set(before))}]

    import play_session
    from play_refusals import Refusals
    from play_session import NOREG, NORES
    import protosym.simplecas as sc

    class Lazy(Refusals):
        may_load = False

        def call(self, ev, f):
            def g():
                try:
                    return f()
                except ImportError:
                    self.missing = True
                    raise
                except Exception:
                    self.refused = True
                    raise
            return super().call(ev, g)

        def op_tosym(self, op, ev):
            if "sympy" in has:
                return super().op_tosym(op, ev)
            e = self.expr(op["a"][0])
            self.call(ev, e.to_sympy)
            return None, None

        def op_mtosym(self, op, ev):
            if "sympy" in has:
                return super().op_mtosym(op, ev)
            self.call(ev, self.kind(op["m"], "m").to_sympy)
            return None, None

        def op_fromsym(self, op, ev):
            if "sympy" in has:
                return super().op_fromsym(op, ev)
            self.call(ev, lambda: sc.Expr.from_sympy(object()))
            return None, NOREG

        def op_mfromsym(self, op, ev):
            if "sympy" in has:
                return super().op_mfromsym(op, ev)
            self.call(ev, lambda: sc.Matrix.from_sympy(object()))
            return None, NOREG

    s = Lazy(script, True)
    s.tab.adopt(nodes)
    s.ev = [dict(first[0], res=NORES, ask=False, mro=[], missing=False, refused=False, lenient=False)]
    for op in script["ops"]:
        what = op["op"] if op["op"] != "lam" or "m" not in op else "mlam"
        s.missing = s.refused = False
        s.step(op)
        s.ev[-1].update(does=what, loaded=loaded(), missing=s.missing, refused=s.refused,
                        lenient=what in ("fromsym", "mfromsym"))
    pts = [[{"id": s.tab.add(play_session.node_atom("Symbol", name)), "d": play_session.node_double(s.number(v))}
            for name, v in pt] for pt in script.get("pts", ())]
    return {"ev": s.ev, "has": list(has), "nodes": s.tab.nodes, "pts": pts}


BRINGS = []


def play(script):
    if not BRINGS:
        BRINGS.append(brings())
    nodes, runs, pts = [], [], []
    for has in [list(PACKAGES)] + script["without"]:
        shadow(has)
        got = forked(lambda: run(script, has, nodes), 60)
        if got is None:
            got = {"ev": [{"op": "crash", "res": {"t": "-"}, "does": "crash", "ask": False, "mro": [], "loaded": [], "missing": False,
                           "refused": False, "lenient": False}], "has": has, "nodes": nodes, "pts": pts}
        nodes = got.pop("nodes")
        pts = got.pop("pts")
        runs.append(got)
    return {"tab": nodes, "ev": runs[0]["ev"], "runs": runs, "pts": pts, "needvals": True, "brings": BRINGS[0]}


def crashed(script):
    return {"tab": [], "ev": [{"op": "crash", "res": {"t": "-"}}], "runs": [], "pts": [], "needvals": False,
            "brings": {p: [] for p in PACKAGES}}
