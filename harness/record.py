"""Projecting objects of the library to the tables of spec/Terms.tla."""
from __future__ import annotations

import math
import re
import struct

P, Q, NOX, BOUND = 46337, 46336, -2000000000, 1000000


def node_atom(ty, nm):
    return {"ty": ty, "nm": nm, "p": 0, "q": 0, "x": NOX, "ch": []}


def node_int(n):
    return {"ty": "Integer", "nm": str(n), "p": n % P, "q": n % Q,
            "x": n if abs(n) <= BOUND else NOX, "ch": []}


def node_comp(ch):
    return {"ty": "", "nm": "", "p": 0, "q": 0, "x": NOX, "ch": list(ch)}


class Table:
    """A table of distinct nodes, compared by structure only."""

    HEADS = ["Add", "Mul", "pow", "sin", "cos", "List"]

    def __init__(self):
        self.nodes = []
        self.index = {}
        self.kinds = {}     # id(AtomType) -> (label, AtomType)
        for h in self.HEADS:
            self.add(node_atom("Function", h))
        for n in (0, 1, -1):
            self.add(node_int(n))

    def add(self, node):
        key = (node["ty"], node["nm"], tuple(node["ch"]))
        i = self.index.get(key)
        if i is None:
            self.nodes.append(node)
            i = self.index[key] = len(self.nodes)
        return i

    def adopt(self, nodes):
        """Take over a table that has grown out of this one."""
        for nd in nodes[len(self.nodes):]:
            self.nodes.append(nd)
            self.index[(nd["ty"], nd["nm"], tuple(nd["ch"]))] = len(self.nodes)

    def register_kind(self, atom_type, label):
        self.kinds[id(atom_type)] = (label, atom_type)

    def kind(self, atom_type):
        got = self.kinds.get(id(atom_type))
        if got is None:
            self.register_kind(atom_type, f"?{len(self.kinds)}:{atom_type.name}")
            got = self.kinds[id(atom_type)]
        return got[0]

    def atom(self, value):
        ty = self.kind(value.atom_type)
        v = value.value
        if ty == "Integer" and type(v) is int:
            return self.add(node_int(v))
        nm = v if type(v) is str else f"{type(v).__name__}:{v!r}"
        return self.add(node_atom(ty, nm))

    def tree(self, root):
        """Id of a Tree.  Walks the structure without library traversals."""
        memo = {}
        stack = [root]
        while stack:
            t = stack[-1]
            if id(t) in memo:
                stack.pop()
                continue
            ch = t.children
            if not ch:
                memo[id(t)] = self.atom(t.value)
                stack.pop()
                continue
            todo = [c for c in ch if id(c) not in memo]
            if todo:
                stack.extend(todo)
            else:
                memo[id(t)] = self.add(node_comp([memo[id(c)] for c in ch]))
                stack.pop()
        return memo[id(root)]

    def sympy(self, s):
        """Id of a SymPy object in the structure SymPy gives it."""
        import sympy
        from sympy.core.function import AppliedUndef

        if isinstance(s, sympy.Integer):
            return self.add(node_int(int(s.p)))
        if isinstance(s, sympy.Rational):
            d = self.add(node_comp([3, self.add(node_int(int(s.q))), 9]))
            return self.add(node_comp([2, self.add(node_int(int(s.p))), d]))
        if type(s) is sympy.Symbol and s._assumptions_orig == {}:
            return self.add(node_atom("Symbol", s.name))
        head = None
        if isinstance(s, sympy.Add):
            head = 1
        elif isinstance(s, sympy.Mul):
            head = 2
        elif isinstance(s, sympy.Pow):
            head = 3
        elif isinstance(s, sympy.sin):
            head = 4
        elif isinstance(s, sympy.cos):
            head = 5
        elif isinstance(s, sympy.Tuple):
            head = 6
        elif isinstance(s, AppliedUndef):
            # one that only shares the name of a function the library interprets is another function
            head = self.add(node_atom("Function", "undefined " * (s.name in self.HEADS) + s.name))
        if head is None:
            return self.add(node_atom("Opaque", sympy.srepr(s)))
        return self.add(node_comp([head] + [self.sympy(c) for c in s.args]))


# ---------------------------------------------------------------- doubles

def node_double(v):
    """A double for spec/Approx.tla; anything that is not a finite real number has kind "n"."""
    d = {"k": "n", "s": 1, "hi": 0, "lo": 0, "e": 0, "x": NOX}
    try:
        f = float(v)
    except Exception:
        return d
    if f != f or f in (float("inf"), float("-inf")):
        return d
    if f == 0:
        return dict(d, k="z", x=0)
    m, e = math.frexp(abs(f))
    n = int(m * 2 ** 53)
    return {"k": "f", "s": 1 if f > 0 else -1, "hi": n >> 26, "lo": n & (2 ** 26 - 1), "e": e - 53,
            "x": int(f) if f == int(f) and abs(f) <= BOUND else NOX}


# ---------------------------------------------------------------- tokens

_TEXT = re.compile(r"\s*(?:(\d+)|([A-Za-z_]\w*)|(\*\*|[-+*/(),]))")
_TEX = re.compile(r"\s*(?:(\d+)|\\operatorname\{(\w+)\}|\\(?:left|right)|\\[ ,;!]"
                  r"|(\\times|\\cdot)(?![A-Za-z])|\\(sin|cos)(?![A-Za-z])|([A-Za-z_]\w*)|([-+*/(),^{}]))")
NONODE = node_atom("", "")


def _tok(k, v, n=None):
    return {"k": k, "v": v, "n": node_int(n) if n is not None else NONODE}


def lex_text(s):
    out, i = [], 0
    while i < len(s.rstrip()):
        m = _TEXT.match(s, i)
        if not m:
            return out + [_tok("op", "bad")]
        i = m.end()
        if m.group(1):
            out.append(_tok("num", m.group(1), int(m.group(1))))
        elif m.group(2):
            out.append(_tok("name", m.group(2)))
        else:
            out.append(_tok("op", m.group(3)))
    return out


def lex_tex(s):
    out, i = [], 0
    while i < len(s.rstrip()):
        m = _TEX.match(s, i)
        if not m:
            return out + [_tok("op", "bad")]
        i = m.end()
        num, opn, times, fn, name, op = m.groups()
        if num:
            out.append(_tok("num", num, int(num)))
        elif opn or fn or name:
            out.append(_tok("name", opn or fn or name))
        elif times:
            out.append(_tok("op", "*"))
        elif op:
            out.append(_tok("op", op))
    return out


# ---------------------------------------------------------------- LLVM IR

_NAME = r'%(?:"((?:[^"])*)"|([-\w.$]+))'
_DEF = re.compile(r"^define\s+(double|void)\s+@\S+?\((.*)\)[^()]*$")
_CONST = r"(?:0x[0-9a-fA-F]+|-?\d+\.\d*(?:[eE][-+]?\d+)?)"
_OPD = rf"(?:{_NAME}|({_CONST}))"
_BIN = re.compile(rf"^{_NAME} = (fadd|fmul|fsub) double {_OPD}, {_OPD}$")
_NEG = re.compile(rf"^{_NAME} = fneg double {_OPD}$")
_POW = re.compile(rf"^{_NAME} = (?:tail )?call double @llvm\.pow\.f64\(double {_OPD}, double {_OPD}\)$")
_FN = re.compile(rf"^{_NAME} = (?:tail )?call double @llvm\.(sin|cos)\.f64\(double {_OPD}\)$")
_GEP = re.compile(rf'^{_NAME} = getelementptr (?:inbounds )?double, (?:double\*|ptr) {_NAME}, i(?:32|64) (-?\d+)$')
_ST = re.compile(rf"^store double {_OPD}, (?:double\*|ptr) {_NAME}$")
_RET = re.compile(rf"^ret double {_OPD}$")


class Unparsed(Exception):
    pass


def parse_ir(text, matrix):
    """Instructions for the machine of spec/Ssa.tla, or Unparsed."""
    lines = [ln.strip() for ln in text.splitlines()]
    starts = [i for i, ln in enumerate(lines) if ln.startswith("define")]
    if len(starts) != 1:
        raise Unparsed
    m = _DEF.match(lines[starts[0]].rstrip("{").strip())
    if not m:
        raise Unparsed
    params = []
    rest = m.group(2).strip()
    pos = 0
    pat = re.compile(rf"\s*(double\*|ptr|double)\s+{_NAME}\s*(?:,|$)")
    while pos < len(rest):
        pm = pat.match(rest, pos)
        if not pm:
            raise Unparsed
        params.append((pm.group(1), pm.group(2) if pm.group(2) is not None else pm.group(3)))
        pos = pm.end()
    out = None
    if matrix:
        if not params or params[0][0] == "double":
            raise Unparsed
        out = params.pop(0)[1]
    if any(t != "double" for t, _ in params):
        raise Unparsed
    argpos = {n: i + 1 for i, (_, n) in enumerate(params)}
    regs = {}

    def reg(n):
        return regs.setdefault(n, len(regs) + 1)

    def src(q, u, c):
        if c is not None:
            if c.startswith("0x"):
                v = struct.unpack("<d", struct.pack("<Q", int(c, 16)))[0]
            else:
                v = float(c)
            if v != v or v in (float("inf"), float("-inf")) or v != int(v):
                raise Unparsed
            return {"k": "const", "v": 0, "n": node_int(int(v))}
        n = q if q is not None else u
        if n in argpos:
            return {"k": "arg", "v": argpos[n], "n": NONODE}
        return {"k": "reg", "v": reg(n), "n": NONODE}

    def name(q, u):
        return q if q is not None else u

    code = []
    body = False
    for ln in lines[starts[0]:]:
        if ln.endswith("{"):
            body = True
            continue
        if not body or not ln or ln.startswith(";") or ln == "}" or ln.endswith(":"):
            continue
        if m := _BIN.match(ln):
            g = m.groups()
            code.append({"o": g[2][1:], "d": reg(name(g[0], g[1])), "s": [src(*g[3:6]), src(*g[6:9])], "n": 0})
        elif m := _NEG.match(ln):
            g = m.groups()
            code.append({"o": "neg", "d": reg(name(g[0], g[1])), "s": [src(*g[2:5])], "n": 0})
        elif m := _POW.match(ln):
            g = m.groups()
            code.append({"o": "pow", "d": reg(name(g[0], g[1])), "s": [src(*g[2:5]), src(*g[5:8])], "n": 0})
        elif m := _FN.match(ln):
            g = m.groups()
            code.append({"o": g[2], "d": reg(name(g[0], g[1])), "s": [src(*g[3:6])], "n": 0})
        elif m := _GEP.match(ln):
            g = m.groups()
            if out is None or name(g[2], g[3]) != out:
                raise Unparsed
            code.append({"o": "ptr", "d": reg(name(g[0], g[1])), "s": [], "n": int(g[4])})
        elif m := _ST.match(ln):
            g = m.groups()
            n = name(g[3], g[4])
            if n == out:
                code.append({"o": "ptr", "d": reg(n), "s": [], "n": 0}) if n not in regs else None
            code.append({"o": "store", "d": 0, "s": [src(*g[0:3]), {"k": "reg", "v": reg(n), "n": NONODE}], "n": 0})
        elif m := _RET.match(ln):
            code.append({"o": "ret", "d": 0, "s": [src(*m.groups())], "n": 0})
        elif ln == "ret void":
            code.append({"o": "ret", "d": 0, "s": [], "n": 0})
        else:
            raise Unparsed
    return code, len(params)
