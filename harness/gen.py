"""Random scripts for spec/Session.tla (the menu of calls; no verdicts here)."""
from __future__ import annotations

SPECIAL = [0, 1, -1, 2, -2, 3]
BIG = [7, 10, -10, 255, 256, 257, -5, -6, 1000, 46337, 65537, 999999, 1000001, 2**31 - 1, 2**31, -2**31,
       2**32, 2**53, 2**53 + 1, 2**63, 2**64, -2**64, 10**20, 10**30 + 7]


class G:
    def __init__(self, rng, prop):
        self.rng = rng
        self.prop = prop
        self.ops = []
        self.n = 0
        self.term = {}       # reg -> term (tuples), to steer choices
        self.opnds = {}      # reg -> head and operands
        self.powers = {}     # reg -> base and exponent

    def script(self, **kw):
        return dict(prop=self.prop, ops=self.ops, **kw)

    PUSH = {"atom", "bin", "neg", "pos", "call", "copy", "subst", "mkfun", "apply", "diff",
            "binexp", "xform", "mat", "madd", "mdiff", "mget", "fromsym", "mfromsym", "fresh", "lam"}

    def add(self, op, term=None):
        self.ops.append(op)
        if op["op"] in self.PUSH:
            self.n += 1
            if term is not None:
                self.term[self.n] = term
            if op["op"] == "call":
                self.opnds[self.n] = op["a"]
            elif op["op"] == "bin" and op["o"] in "+*" and hasattr(self, "H"):
                self.opnds[self.n] = [self.r(self.H["Add" if op["o"] == "+" else "Mul"])] + op["a"]
            elif op["op"] == "bin" and op["o"] == "**" and hasattr(self, "H"):
                self.powers[self.n] = op["a"]
            return self.n
        return None

    # operands
    def r(self, k):
        return {"r": k}

    def i(self, n):
        return {"i": str(n)}

    def t(self, o):
        return ("i", int(o["i"])) if "i" in o else self.term.get(o["r"], ("?",))

    # atoms
    def sym(self, name):
        return self.add({"op": "atom", "ty": "Symbol", "v": name}, ("s", name))

    def fun(self, name):
        return self.add({"op": "atom", "ty": "Function", "v": name}, ("f", name))

    def int(self, n):
        return self.add({"op": "atom", "ty": "Integer", "v": str(n)}, ("i", n))

    # compounds
    def call(self, h, args, tree=False):
        os = [self.r(h)] + args
        op = {"op": "call", "a": os}
        if tree:
            op["tree"] = True
        return self.add(op, ("c",) + tuple(self.t(o) for o in os))

    def bin(self, o, x, y):
        tx, ty = self.t(x), self.t(y)
        A, M, W, N = ("f", "Add"), ("f", "Mul"), ("f", "pow"), ("i", -1)
        term = {"+": ("c", A, tx, ty), "*": ("c", M, tx, ty), "**": ("c", W, tx, ty),
                "-": ("c", A, tx, ("c", M, N, ty)), "/": ("c", M, tx, ("c", W, ty, N))}[o]
        return self.add({"op": "bin", "o": o, "a": [x, y]}, term)

    def heads(self):
        self.H = {k: self.fun(k) for k in ("Add", "Mul", "pow", "sin", "cos", "List")}
        return self.H

    def pick(self, regs, recent=0.6):
        if self.rng.random() < recent:
            return self.r(self.rng.choice(regs[-6:]))
        return self.r(self.rng.choice(regs))

    def smallint(self):
        c = self.rng.random()
        if c < 0.6:
            return self.i(self.rng.choice(SPECIAL))
        if c < 0.9:
            return self.i(self.rng.randint(-12, 12))
        return self.i(self.rng.choice(BIG))

    def exprs(self, syms, steps, funs=(), heads=None, pow_any=False, exps=(2, 3, -1, 1, 0, -2, 5),
              ints=True, arity=(0, 1, 2, 2, 3, 3, 4, 5), pool=None, big=True, lists=False):
        """Grow a pool of expressions by random construction steps."""
        rng = self.rng
        pool = list(pool or syms)
        H = self.H
        wide = rng.randrange(steps) if steps > 1 and rng.random() < 0.08 else -1
        for step in range(steps):
            def opd():
                if ints and rng.random() < 0.2:
                    return self.smallint() if big else self.i(rng.choice(SPECIAL + [4, 5, -3]))
                return self.pick(pool)
            c = rng.random()
            known = [k for k in pool[-6:] if len(self.opnds.get(k, ())) > 2]
            if step == wide:        # many operands
                ks = [rng.choice(pool[-4:]) for _ in range(3)]
                h, ns = rng.choice(((H["Add"], (8, 12, 17, 26, 35)), (H["Mul"], (8, 9, 12)),
                                    (rng.choice(funs) if funs else H["Add"], (8, 17))))
                k = self.call(h, [self.r(rng.choice(ks)) if rng.random() < 0.8 else opd() for _ in range(rng.choice(ns))])
            elif pow_any and c > 0.985:     # a power and its reverse
                k = rng.choice([k for k in pool if k in self.powers] or [self.bin("**", *(self.pick(pool) for _ in "be"))])
                k2 = self.bin("**", *self.powers[k][::-1]) if any("r" in o for o in self.powers[k]) else k
                k = self.call(H[rng.choice(("Add", "Mul"))], [self.r(k), self.r(k2), opd()][:rng.choice((2, 3))])
            elif known and c > 0.95:      # the operands of another expression in another order, or one of them twice
                h, *os = self.opnds[rng.choice(known)]
                o = rng.randrange(4)
                os = [os[::-1], os[1:] + os[:1], [os[0]] + os, os[:-1]][o]
                k = self.call(h["r"], os)
                if rng.random() < 0.5 and not lists:
                    pool.append(k)
                    k = self.call(H[rng.choice(("Add", "Mul"))], [self.r(k)] + [opd() for _ in range(2)] + [self.r(rng.choice(known))])
            elif c < 0.008:           # a chain
                k = rng.choice(pool[-6:])
                for _ in range(rng.randint(6, 20)):
                    x = [self.r(k), opd()]
                    if rng.random() < 0.3:
                        k = self.call(H[rng.choice(("sin", "cos"))], [self.r(k)])
                    else:
                        k = self.call(H[rng.choice(("Add", "Add", "Mul"))], x[::rng.choice((1, -1))])
            elif c < 0.22:
                x, y = opd(), opd()
                if "i" in x and "i" in y:
                    x = self.pick(pool)
                k = self.bin(rng.choice("+-*"), x, y)
            elif c < 0.30:
                if pow_any and rng.random() < 0.5:
                    k = self.bin("**", self.pick(pool), self.pick(pool))
                elif rng.random() < 0.15 and ints:
                    k = self.bin("**", self.i(rng.choice([2, 3, -1, -2, 1])), self.pick(pool) if pow_any else self.i(2)) \
                        if pow_any else self.bin("**", self.pick(pool), self.i(rng.choice(exps)))
                else:
                    k = self.bin("**", self.pick(pool), self.i(rng.choice(exps)))
            elif c < 0.35:
                k = self.bin("/", opd(), self.pick(pool))
            elif c < 0.55:
                n = rng.choice(arity) if rng.random() > 0.04 else rng.randint(6, 14)
                k = self.call(H[rng.choice(("Add", "Mul"))], [opd() for _ in range(n)], tree=rng.random() < 0.2)
            elif c < 0.72:
                k = self.call(H[rng.choice(("sin", "cos"))], [opd()])
            elif c < 0.80:
                x = self.pick(pool)
                k = self.add({"op": "neg", "a": [x]}, ("c", ("f", "Mul"), ("i", -1), self.t(x)))
            elif funs and c < 0.95:
                k = self.call(rng.choice(funs), [opd() for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))])
            else:
                # the same operand several times
                x = opd()
                k = self.call(H[rng.choice(("Add", "Mul"))], [x] * rng.choice((2, 3)) + [opd()])
            pool.append(k)
        return pool


def bits(t, cap=10**6, sym=1):
    """A bound of the size of the numbers SymPy meets evaluating a term."""
    k = t[0]
    if k == "i":
        return min(cap, max(1, abs(int(t[1])).bit_length()))
    if k == "c":
        head, args = t[1], t[2:]
        head = {"Add": "+", "Mul": "*", "pow": "^"}.get(head[1]) if head[0] == "f" else None
    else:
        head, args = k, t[2:]
    if k in ("s", "f", "bad", "?") and not isinstance(t[-1], (tuple, list)):
        return sym
    bs = [bits(a, cap, sym) for a in args]
    if any(b >= cap for b in bs):
        return cap
    if head == "+":
        return min(cap, max(bs, default=0) + len(bs))
    if head == "*":
        return min(cap, sum(bs) + 1)
    if head == "^" and len(bs) == 2:
        return min(cap, bs[0] * (abs(int(args[1][1])) + 1 if args[1][0] == "i" and bs[1] < 20 else 2 ** min(bs[1], 40)))
    return max(bs, default=1)


def subterms(t, out=None):
    out = [] if out is None else out
    if t[0] == "c":
        for c in t[1:]:
            subterms(c, out)
    if t not in out:
        out.append(t)
    return out


def realise(g, t, cache):
    """Registers for a term, building what is missing."""
    if t in cache:
        return cache[t]
    if t[0] == "s":
        k = g.sym(t[1])
    elif t[0] == "f":
        k = g.fun(t[1])
    elif t[0] == "i":
        k = g.int(t[1])
    else:
        hs = [realise(g, c, cache) for c in t[1:]]
        k = g.call(hs[0], [g.r(h) for h in hs[1:]])
    cache[t] = k
    return k


# ------------------------------------------------------------------ C05

def subst_script(rng, prop="C05"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y", "z", "u", "v"], rng.randint(2, 4))]
    funs = [g.fun(n) for n in ("f", "g")]
    pool = g.exprs(syms, rng.randint(3, 9), funs=funs, pow_any=True)
    cache = {t: k for k, t in g.term.items()}
    fs = []
    reps_pool = list(pool) + funs + syms
    for _ in range(rng.randint(3, 7)):
        e = rng.choice(pool[-5:])
        te = g.term[e]
        subs = subterms(te)
        n = rng.choice((0, 1, 1, 2, 2, 3, 4))
        targets = []
        for _ in range(n):
            c = rng.random()
            if c < 0.65:
                t = rng.choice(subs)
            elif c < 0.75:
                t = te
            elif c < 0.85:
                t = ("i", rng.choice(SPECIAL))
            else:
                t = g.term[rng.choice(pool)]
            if t not in targets and t[0] != "?" and t[0] != "f?":
                targets.append(t)
        regs = [realise(g, t, cache) for t in targets]
        ts = [g.r(k) for k in regs]

        def rep(k):
            c = rng.random()
            if c < 0.25 and regs:
                return g.r(rng.choice(regs))          # replacement equal to a target
            if c < 0.4:
                return g.i(rng.choice(SPECIAL))
            return g.r(rng.choice(reps_pool))
        for k, t in enumerate(targets):
            if t[0] == "f":      # heads are replaced by functions mostly
                pass
        rs = [g.r(rng.choice(funs + [g.H["sin"]])) if t[0] == "f" and rng.random() < 0.8 else rep(t) for t in targets]
        mode = rng.choice(("tree", "function", "xreplace"))
        if rng.random() < 0.5:
            k = g.add({"op": "subst", "mode": mode, "a": [g.r(e)], "ts": ts, "rs": rs})
            if rng.random() < 0.3 and ts:
                # other order of the same targets
                p = list(range(len(ts)))
                rng.shuffle(p)
                g.add({"op": "subst", "mode": mode, "a": [g.r(e)], "ts": [ts[i] for i in p],
                       "rs": [rs[i] for i in p]})
        else:
            f = g.add({"op": "mkfun", "mode": rng.choice(("tree", "function")), "a": [g.r(e)], "ts": ts})
            fs.append((f, targets))
            g.add({"op": "apply", "f": f, "rs": rs})
            for _ in range(rng.randint(0, 2)):
                h, tt = rng.choice(fs)
                g.add({"op": "apply", "f": h, "rs": [rep(t) for t in tt]})
        if rng.random() < 0.15:
            g.add({"op": "churn", "n": 5, "what": "subst"})
        if fs and rng.random() < 0.1:
            h, tt = rng.choice(fs)
            g.add({"op": "apply", "f": h, "rs": [rep(t) for t in tt] + [g.r(syms[0])]})
    g.add({"op": "frame"})
    return g.script()


# ------------------------------------------------------------------ C10

def operator_script(rng, prop="C10"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y", "z"], rng.randint(1, 3), 0.15)]
    funs = [g.fun("f")]
    pool = syms + [g.int(n) for n in rng.sample(SPECIAL + BIG, 4)] + list(g.H.values()) + funs
    done = []
    for _ in range(rng.randint(15, 30)):
        c = rng.random()

        def opd(lit=0.35):
            if rng.random() < lit:
                return g.i(rng.choice(SPECIAL + [rng.randint(-300, 300)] + BIG[:6]))
            return g.r(rng.choice(pool[-8:] + syms))
        if done and c < 0.15:
            op = rng.choice(done)          # the same again, later
            k = g.add(dict(op))
            continue
        if c < 0.65:
            x, y = opd(), opd()
            if "i" in x and "i" in y:
                if rng.random() < 0.5:
                    x = g.r(rng.choice(pool))
                else:
                    y = g.r(rng.choice(pool))
            k = g.bin(rng.choice(["+", "-", "*", "/", "**"]), x, y)
        elif c < 0.72:
            k = g.add({"op": rng.choice(("neg", "pos")), "a": [g.r(rng.choice(pool))]}, ("?",))
        elif c < 0.9:
            h = rng.choice(list(g.H.values()) + funs + pool[-2:])
            n = rng.choice((0, 1, 2, 3, 5, 11))
            k = g.call(h, [opd() for _ in range(n)], tree=rng.random() < 0.3)
        elif c < 0.95:
            k = g.add({"op": "copy", "a": [g.r(rng.choice(pool))], "deep": rng.random() < 0.5}, ("?",))
        else:
            g.add({"op": "churn", "n": 6})
            if rng.random() < 0.5:
                dead = rng.choice(pool)
                if dead not in syms and dead not in g.H.values() and dead not in funs:
                    g.add({"op": "drop", "r": dead})
                    pool.remove(dead)
                    g.add({"op": "gc"})
            continue
        done.append(g.ops[-1])
        pool.append(k)
        if rng.random() < 0.35:
            g.add({"op": "parts", "a": [g.r(rng.choice(pool[-6:]))]})
    g.add({"op": "frame"})
    return g.script(needvals=False)


# ------------------------------------------------------------------ C04

def traversal_script(rng, prop="C04"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y", "z"], rng.randint(1, 3), 0.15)]
    funs = [g.fun(n) for n in ("f", "g")]
    pool = list(syms)
    for _ in range(rng.randint(2, 10)):
        c = rng.random()
        if c < 0.12:
            h = rng.choice(pool)               # compound or symbol as head
        else:
            h = rng.choice(funs + list(g.H.values()))
        n = rng.choice((0, 1, 1, 2, 2, 2, 3, 3, 4, 7))
        args = [g.pick(pool + (funs if rng.random() < 0.1 else [])) for _ in range(n)]
        if rng.random() < 0.2:
            args = args + args[::-1]
        if rng.random() < 0.2:
            args.append(g.i(rng.choice(SPECIAL)))
        pool.append(g.call(h, args, tree=rng.random() < 0.5))
    cache = {t: k for k, t in g.term.items()}
    for _ in range(rng.randint(4, 9)):
        e = rng.choice(pool[-4:] + pool)
        subs = subterms(g.term[e])
        c = rng.random()
        ex = []
        if rng.random() < 0.55:
            for _ in range(rng.choice((1, 1, 2, 3))):
                t = rng.choice(subs) if rng.random() < 0.85 else g.term[rng.choice(pool)]
                k = realise(g, t, cache)
                if k not in ex:
                    ex.append(k)
        ex = [g.r(k) for k in ex]
        if c < 0.5:
            g.add({"op": "topo", "a": [g.r(e)], "heads": rng.random() < 0.5, "ex": ex,
                   "explicit": rng.random() < 0.3})
        elif c < 0.75:
            g.add({"op": "split", "a": [g.r(e)], "ex": ex})
        else:
            g.add({"op": "graph", "a": [g.r(e)]})
    g.add({"op": "frame"})
    return g.script(needvals=False)


# ------------------------------------------------------------------ C15

def rewrite_script(rng, prop="C15"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y", "z"], rng.randint(1, 3), 0.15)]
    funs = [g.fun(n) for n in ("f", "g", "h")]
    pool = g.exprs(syms, rng.randint(3, 10), funs=funs, pow_any=True, arity=(0, 1, 2, 3, 3, 4, 6, 9))
    if rng.random() < 0.15:         # many different parts
        k = g.r(pool[-1])
        for _ in range(rng.randint(8, 20)):
            x = g.r(rng.choice(pool[-3:]))
            k = g.r(g.call(rng.choice(funs + [g.H["Add"], g.H["Mul"]]), [k, x, k][:rng.randint(1, 3)]))
        h = rng.choice(funs + [g.H["Add"], g.H["Mul"]])
        x, y = g.r(rng.choice(pool)), g.r(rng.choice(syms))
        ks = [k, g.r(g.call(h, [x, y])), g.r(g.call(h, [y, x])), g.r(g.call(h, [x, y, x]))]
        pool.append(g.call(rng.choice((h, g.H["Add"])), ks))
    for _ in range(rng.randint(2, 5)):
        e = rng.choice(pool[-4:])
        if rng.random() < 0.5:
            k = g.add({"op": "binexp", "a": [g.r(e)]}, ("?",))
            if rng.random() < 0.5:
                pool.append(k)
        else:
            hr, ar = [], []
            heads = funs + list(g.H.values())
            for _ in range(rng.choice((0, 1, 1, 2, 3))):
                hr.append({"h": g.r(rng.choice(heads)),
                           "kind": rng.choice(("rehead", "rev", "wrap", "first", "const", "dup")),
                           "to": g.r(rng.choice(heads)) if rng.random() < 0.9 else g.r(rng.choice(pool))})
            for r in hr:
                if r["kind"] in ("const",):
                    r["to"] = g.r(rng.choice(pool))
            for _ in range(rng.choice((0, 0, 1, 2))):
                ar.append({"h": g.r(rng.choice(syms)), "kind": "atom", "to": g.r(rng.choice(pool + syms))})
            if rng.random() < 0.3:
                n = rng.choice((0, 1, -1, 2))
                ar.append({"h": g.i(n), "kind": "atom", "to": g.r(rng.choice(pool + syms))})
            g.add({"op": "xform", "a": [g.r(e)], "hr": hr, "ar": ar}, ("?",))
    if rng.random() < 0.3:
        g.add({"op": "churn", "n": 5, "what": "binexp"})
        g.add({"op": "binexp", "a": [g.r(rng.choice(pool))]}, ("?",))
    g.add({"op": "frame"})
    return g.script()


# ------------------------------------------------------------------ C08

def small(rng, g, syms):
    """A function of a symbol or of a multiple of it, or a power of it."""
    x = rng.choice(syms)
    c = rng.random()
    if c < 0.2:
        return g.bin("**", g.r(x), g.i(rng.randint(2, 6)))
    if c < 0.5:
        x = rng.choice((g.bin("*", g.r(x), g.i(rng.choice((2, 3, -1)))), g.bin("+", g.r(x), g.r(rng.choice(syms)))))
    return g.call(g.H[rng.choice(("sin", "cos"))], [g.r(x)])


def diff_script(rng, prop="C08"):
    g = G(rng, prop)
    g.heads()
    names = few_names(rng, ["x", "y", "z", "t"], rng.randint(1, 3))
    syms = [g.sym(n) for n in names]
    funs = [g.fun("f")] if rng.random() < 0.35 else []
    pool = g.exprs(syms, rng.randint(2, 8), funs=funs, pow_any=rng.random() < 0.25)
    if rng.random() < 0.3:
        from_ = syms if rng.random() < 0.25 else pool
        es = [g.r(rng.choice(from_)) for _ in range(rng.choice((0, 1, 2, 3, 7, 11)))]
        es += [g.smallint() for _ in range(rng.randint(1, 5))] if rng.random() < 0.5 else []
        pool.append(g.call(g.H["List"], es))
        if rng.random() < 0.3:
            pool.append(g.call(g.H["List"], [g.r(pool[-1]), g.r(pool[-2])]))
    lists = [k for k in pool if g.term.get(k, ("?",))[0] == "c" and g.term[k][1] == ("f", "List")]
    targets = [k for k in pool if k not in lists] + lists
    done = []
    for _ in range(rng.randint(2, 5)):
        e = rng.choice(targets[-5:])
        v = rng.choice(syms)
        k = rng.choice((0, 1, 1, 1, 1, 2, 2, 3))
        if done and rng.random() < 0.2:
            g.add(dict(rng.choice(done)))
            continue
        if rng.random() < 0.12:        # many times
            e, k = small(rng, g, syms), rng.randint(3, 8)
        d = g.add({"op": "diff", "a": [g.r(e), g.r(v)], "k": k,
                   "how": rng.choice(("method", "function", "default"))})
        done.append(g.ops[-1])
        if k <= 1 and rng.random() < 0.5:
            targets.append(d)
        if rng.random() < 0.1:
            g.add({"op": "churn", "n": 5, "what": "diff"})
    g.add({"op": "frame"})
    return g.script()


# ------------------------------------------------------------------ C11

def text_script(rng, prop="C11"):
    g = G(rng, prop)
    g.heads()
    names = rng.sample(["x", "y", "z", "alpha", "x1", "n_0", "Q", "e", "E", "I", "pi", "_k", "sinx", "d"],
                       rng.randint(2, 4))
    syms = [g.sym(n) for n in names]
    funs = [g.fun(n) for n in rng.sample(["f", "g", "tan", "F2", "h_1"], 2)]
    pool = g.exprs(syms, rng.randint(4, 12), funs=funs, pow_any=True, arity=(1, 2, 2, 2, 3, 3, 4))
    if rng.random() < 0.3:      # functions that are not called
        k = g.r(rng.choice(funs))
        pool += [funs[1], g.call(rng.choice(funs), [k]), g.call(funs[0], [g.r(rng.choice(pool)), k]), g.bin("**", k, g.i(2))]
    # near misses: powers of powers, signs, groupings
    x, y = g.r(rng.choice(pool)), g.r(rng.choice(pool))
    for _ in range(rng.randint(1, 4)):
        c = rng.randrange(7)
        if c == 0:
            p = g.bin("**", x, y)
            pool += [g.bin("**", g.r(p), g.r(rng.choice(pool))), g.bin("**", g.r(rng.choice(pool)), g.r(p))]
        elif c == 1:
            n = g.int(rng.choice((-1, -2, -10, 0, 3)))
            pool += [g.bin("**", g.r(n), x), g.bin("**", x, g.r(n)), g.bin("*", g.r(n), x), g.bin("+", g.r(n), x)]
        elif c == 2:
            a = g.bin("+", x, y)
            pool += [g.bin("+", g.r(a), x), g.bin("+", x, g.r(a)), g.call(g.H["Add"], [x, y, x])]
        elif c == 3:
            a = g.bin("*", x, y)
            pool += [g.bin("*", g.r(a), x), g.bin("*", x, g.r(a)), g.call(g.H["Mul"], [x, y, x]),
                     g.bin("**", g.r(a), g.i(2)), g.bin("**", g.i(2), g.r(a))]
        elif c == 4:
            a = g.bin("**", g.i(rng.choice((-1, -3))), g.i(rng.choice((2, -1))))
            pool += [a, g.bin("**", g.r(a), y)]
        elif c == 5:
            pool += [g.call(funs[0], [x, y]), g.call(funs[0], [g.r(g.call(funs[0], [x])), y]),
                     g.call(funs[0], [])]
        else:
            p = g.call(g.H[rng.choice(("sin", "cos"))], [x])
            pool += [g.bin("**", g.r(p), g.i(2)), g.call(g.H["sin"], [g.r(g.bin("**", x, g.i(2)))])]
        x, y = g.r(rng.choice(pool)), g.r(rng.choice(pool))
    order = list(pool)
    rng.shuffle(order)
    for k in order[:14]:
        g.add({"op": "text", "a": [g.r(k)], "how": rng.choice(("repr", "str", "eval", "fmt"))})
        if rng.random() < 0.7:
            g.add({"op": "latex", "a": [g.r(k)], "how": rng.choice(("eval", "hook"))})
    return g.script()


# ------------------------------------------------------------------ C13 (text of the code)

def code_script(rng, prop="C13"):
    g = G(rng, prop)
    g.heads()
    names = rng.sample(["x", "y", "z", "t", ".0", "_out", "a b", "x1", "double", "ret", ".1", "x.y", "µ", 'q"q', "2x"],
                       rng.randint(1, 4))
    syms = [g.sym(n) for n in names]
    funs = [g.fun("f")] if rng.random() < 0.15 else []
    pool = g.exprs(syms, rng.randint(2, 9), funs=funs, pow_any=True, arity=(0, 1, 2, 3, 4, 6),
                   big=rng.random() < 0.3)
    if rng.random() < 0.2:      # calls with a number of arguments that has no rule
        k = g.call(g.H[rng.choice(("sin", "cos"))], [g.r(rng.choice(pool)) for _ in range(rng.choice((0, 2, 3)))]) \
            if rng.random() < 0.6 else \
            g.call(g.H["pow"], [g.r(rng.choice(pool)) for _ in range(rng.choice((0, 1, 3)))])
        pool.append(g.bin(rng.choice("+*"), g.r(k), g.r(rng.choice(syms))) if rng.random() < 0.4 else k)
    for _ in range(rng.randint(2, 5)):
        ps = list(syms)
        rng.shuffle(ps)
        if rng.random() < 0.1 and len(ps) > 1:
            ps = ps[1:]
        if rng.random() < 0.5:
            g.add({"op": "code", "a": [g.r(rng.choice(pool[-5:]))], "ps": [g.r(p) for p in ps]})
        else:
            nr, nc = rng.randint(1, 3), rng.randint(1, 3)
            es = [g.i(0) if rng.random() < 0.4 else
                  (g.i(rng.choice(SPECIAL)) if rng.random() < 0.15 else g.r(rng.choice(pool[-6:] + syms)))
                  for _ in range(nr * nc)]
            m = g.add({"op": "mat", "nr": nr, "nc": nc, "a": es})
            if rng.random() < 0.3:
                m2 = g.add({"op": "mat", "nr": nr, "nc": nc, "a": rng.sample(es, len(es))})
                m = g.add({"op": "madd", "x": m, "y": m2})
            if rng.random() < 0.2:
                m = g.add({"op": "mdiff", "m": m, "a": [g.r(syms[0])]})
            g.add({"op": "mcode", "m": m, "ps": [g.r(p) for p in ps]})
    for op in g.ops:        # integers that floating point numbers represent
        for o in op.get("a", ()):
            if "i" in o and int(float(o["i"])) != int(o["i"]):
                o["i"] = str(int(float(o["i"])))
    return g.script()


# ------------------------------------------------------------------ C14

def matrix_script(rng, prop="C14"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y"], 2, 0.15)]
    pool = g.exprs(syms, rng.randint(2, 5), exps=(2, 3, -1), big=False)
    ms = []
    shapes = {}

    def entry():
        c = rng.random()
        if c < 0.4:
            return g.i(0)
        if c < 0.6:
            return g.i(rng.choice((1, -1, 2, 5)))
        return g.r(rng.choice(pool))
    base = (rng.randint(1, 4), rng.randint(1, 4))
    for _ in range(rng.randint(2, 4)):
        nr, nc = base if rng.random() < 0.8 else (rng.randint(1, 4), rng.randint(1, 4))
        m = g.add({"op": "mat", "nr": nr, "nc": nc, "a": [entry() for _ in range(nr * nc)]})
        ms.append(m)
        shapes[m] = (nr, nc)
    if rng.random() < 0.3:      # one without entries, and one whose entries are stored in another order
        nr, nc = base
        at = rng.sample(range(nr * nc), rng.randint(1, min(4, nr * nc)))
        k = None
        for n in at:
            o = g.add({"op": "mat", "nr": nr, "nc": nc,
                       "a": [g.r(rng.choice(pool)) if j == n else g.i(0) for j in range(nr * nc)]})
            k = o if k is None else g.add({"op": "madd", "x": k, "y": o})
        z = g.add({"op": "mat", "nr": nr, "nc": nc, "a": [g.i(0)] * (nr * nc)})
        s = g.add({"op": "madd", "x": z, "y": k} if rng.random() < 0.6 else {"op": "madd", "x": k, "y": z})
        for o in (k, z, s):
            ms.append(o)
            shapes[o] = base
    g.add({"op": "frame"})
    for _ in range(rng.randint(4, 9)):
        c = rng.random()
        m = rng.choice(ms)
        if c < 0.3:
            o = rng.choice(ms)
            k = g.add({"op": "madd", "x": m, "y": o})
            if shapes[m] == shapes[o]:
                ms.append(k)
                shapes[k] = shapes[m]
        elif c < 0.5:
            k = g.add({"op": "mdiff", "m": m, "a": [g.r(rng.choice(syms))]})
            ms.append(k)
            shapes[k] = shapes[m]
        elif c < 0.7:
            nr, nc = shapes[m]
            i, j = rng.choice([(rng.randrange(nr), rng.randrange(nc)), (nr, 0), (0, nc), (-1, 0), (0, -1),
                               (nr - 1, nc - 1), (rng.randrange(nr), rng.randrange(nc)), (nc, nr)])
            g.add({"op": "mget", "m": m, "i": i, "j": j})
        elif c < 0.72:
            lens = [rng.randint(0, 4)] * rng.randint(2, 5)
            if rng.random() < 0.85:
                lens[rng.randrange(len(lens))] += rng.choice((1, 1, 2, -1))
                lens = [max(0, n) for n in lens]
            if len(set(lens)) > 1:
                g.add({"op": "mragged", "lens": lens, "a": [entry() for _ in range(sum(lens))]})
        elif c < 0.8:
            g.add({"op": "mget", "m": m, "i": 0, "j": 0,
                   "bad": rng.choice(("float", "str", "single", "triple", "list", "none", "slice"))})
        elif c < 0.9:
            g.add({"op": "mlist", "m": m})
        else:
            g.add({"op": "mtext", "m": m})
        if rng.random() < 0.5:
            g.add({"op": "frame"})
    g.add({"op": "frame"})
    for m in ms:
        g.add({"op": "mlist", "m": m})
    return g.script()


# ------------------------------------------------------------------ C12

def _symterm(rng, depth, names, funs, ev, exps=True):
    c = rng.random()
    if depth == 0 or c < 0.15:
        if rng.random() < 0.35:
            return ["i", str(rng.choice([0, 1, -1, 2, 3, -2, 7, 12, 10**12]))]
        return ["s", rng.choice(names)]
    sub = lambda: _symterm(rng, depth - 1, names, funs, ev, exps)
    e = ev if ev is not None else rng.random() < 0.5
    if c < 0.4:
        return ["+", e] + [sub() for _ in range(rng.choice((2, 2, 3, 4)))]
    if c < 0.62:
        return ["*", e] + [sub() for _ in range(rng.choice((2, 2, 3, 4)))]
    if c < 0.78:
        ex = ["i", str(rng.choice((2, 3, -1, -2, 1, 0)))] if rng.random() < 0.7 else sub()
        return ["^", e, sub(), ex]
    if c < 0.9:
        return [rng.choice(("sin", "cos")), e, sub()]
    return [rng.choice(funs), e] + [sub() for _ in range(rng.choice((0, 1, 2, 3)))]


def tame(make):
    while True:
        t = make()
        if bits(t) < 5000:
            return t


BADS = ["pi", "E", "I", "oo", "nan", "half", "float", "exp", "tan", "abs", "deriv", "eq", "true", "max",
        "integral", "gamma", "lt", "piecewise", "set", "asin", "sqrt2", "zoo", "sinh", "factorial", "dict",
        "log", "matsym", "lambda", "conj", "interval", "mod", "subs", "sum", "dummy", "wild", "usin", "ucos", "upow", "uadd", "umul", "ulist"]


# names that mean something else somewhere
ODDNAMES = ["1", "2", "-1", "0", "pi", "E", "I", "x + y", "x*y", "sin(x)", "oo", "nan", "S", "N", "lambda", "x1", "0.5"]
KNOWN = ["exp", "gamma", "sign", "tan", "Abs", "re", "sqrt", "Max", "log", "h", "erf", "Heaviside", "asin", "cosh", "zeta", "Id"]


GREEK = ["alpha", "beta", "gamma", "delta", "lamda", "mu", "pi_", "sigma", "omega", "Gamma", "Delta", "epsilon", "theta"]


def any_name(rng):
    """The name of a symbol: a letter, a Greek letter, a word, something with a number or several words."""
    c = rng.random()
    letter = chr(rng.choice((65, 97)) + rng.randrange(26))
    if c < 0.5:
        return letter
    if c < 0.7:
        return rng.choice(GREEK)
    if c < 0.85:
        return letter + rng.choice(("_", "", "_{", "'")) + str(rng.randrange(12))
    return rng.choice(("x y", "x,y", "x:3", " x", "x ", "True", "None", "inf", "oo_", "Symbol", "µ", "é", "", "x(1)", "a.b", "_"))


def sympy_script(rng, prop="C12"):
    g = G(rng, prop)
    g.heads()
    names = rng.sample(["x", "y", "z", "w"], rng.randint(1, 3)) if rng.random() < 0.6 else \
        list(dict.fromkeys(any_name(rng) for _ in range(rng.randint(1, 3))))
    if rng.random() < 0.3:
        names += rng.sample(ODDNAMES, 2)
    syms = [g.sym(n) for n in names]
    fnames = ["f", "g"] if rng.random() < 0.5 else rng.sample(KNOWN, 2) if rng.random() < 0.6 else \
        list(dict.fromkeys(["F" + any_name(rng), any_name(rng) + "f"]))
    funs = [g.fun(n) for n in fnames]
    pool = g.exprs(syms, rng.randint(2, 7), funs=funs, pow_any=True)
    pool = [k for k in pool if bits(g.term[k]) < 5000]
    if rng.random() < 0.3:
        for _ in range(rng.choice((1, 1, 2, 3))):
            pool.append(g.call(g.H["List"], [g.r(pool[-1])] * rng.choice((0, 1)) +
                               [g.r(rng.choice(pool)) for _ in range(rng.choice((0, 1, 3)))]))
        g.add({"op": "tosym", "a": [g.r(pool[-1])], "how": "method"})
    for k in rng.sample(pool, min(len(pool), 4)):
        g.add({"op": "tosym", "a": [g.r(k)], "how": rng.choice(("method", "sympify"))})
    for _ in range(rng.randint(1, 4)):
        ev = rng.choice((True, True, None))
        t = tame(lambda: _symterm(rng, rng.randint(0, 3), names, fnames, ev))
        if rng.random() < 0.15:
            for _ in range(rng.choice((1, 1, 2))):
                t = ["T", True, t, _symterm(rng, 1, names, fnames, ev)][:rng.choice((2, 3, 4))]
        k = g.add({"op": "fromsym", "term": t, "supported": True, "evaluated": ev is True})
    if rng.random() < 0.5:
        bad = ["bad", rng.choice(BADS)]
        if rng.random() < 0.6:
            bad = rng.choice([["+", True, ["s", "x"], bad], ["sin", False, bad], ["f", True, bad],
                              ["*", False, ["s", "x"], bad], ["T", True, ["s", "x"], bad]])
        g.add({"op": "fromsym", "term": bad, "supported": False, "evaluated": False, "nosym": True})
    for _ in range(rng.choice((0, 1, 2))):      # somewhere inside, as far as SymPy leaves it there
        ev = rng.choice((True, True, None))
        t = tame(lambda: _symterm(rng, rng.randint(1, 3), names, fnames, ev))
        at, bad = t, ["bad", rng.choice(BADS if rng.random() < 0.7 else ["float", "half", "pi", "I", "E", "sqrt2"])]
        while True:
            k = rng.randrange(2, len(at)) if len(at) > 2 and at[0] not in "is" else 0
            if not k:
                break
            if at[k][0] in ("i", "s"):
                at[k] = bad
                break
            at = at[k]
        g.add({"op": "fromsym", "term": t, "supported": True, "evaluated": False})
    if rng.random() < 0.2:      # as the coefficient of one term among others
        bad = ["*", True, ["bad", rng.choice(("float", "half", "pi", "I", "sqrt2"))], ["s", rng.choice(names)]]
        g.add({"op": "fromsym", "term": ["+", True, ["i", str(rng.choice((0, 3)))], ["^", True, ["s", names[0]], ["i", "2"]], bad],
               "supported": True, "evaluated": False})
    if rng.random() < 0.6:
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        es = [g.i(0) if rng.random() < 0.4 else g.r(rng.choice(pool)) for _ in range(nr * nc)]
        es = [o if "i" in o or g.term.get(o["r"], ("?",))[:2] != ("c", ("f", "List")) else g.i(1) for o in es]
        m = g.add({"op": "mat", "nr": nr, "nc": nc, "a": es})
        if rng.random() < 0.4:
            m = g.add({"op": "mdiff", "m": m, "a": [g.r(syms[0])]})
        if rng.random() < 0.5:      # entries stored in another order
            es = [es[-1]] + es[:-1] if rng.random() < 0.6 else rng.sample(es, len(es))
            m = g.add({"op": "madd", "x": m, "y": g.add({"op": "mat", "nr": nr, "nc": nc, "a": es})})
        g.add({"op": "mtosym", "m": m})
    if rng.random() < 0.6:
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        ts = [["i", "0"] if rng.random() < 0.4 else
              tame(lambda: _symterm(rng, 2, names, fnames[:1], True)) for _ in range(nr * nc)]
        m = g.add({"op": "mfromsym", "nr": nr, "nc": nc, "terms": ts, "supported": True,
                   "cls": rng.choice(("dense", "immutable", "sparse"))})
        g.add({"op": "mlist", "m": m})
        g.add({"op": "mtosym", "m": m})
    return g.script()


# ------------------------------------------------------------------ C16 (counts)

def count_script(rng, prop="C16"):
    g = G(rng, prop)
    g.heads()
    syms = [g.sym(n) for n in few_names(rng, ["x", "y", "z"], rng.randint(1, 3), 0.15)]
    funs = [g.fun(n) for n in ("f", "g")]
    pool = list(syms)
    for _ in range(rng.randint(3, 25)):
        h = rng.choice(funs + [g.H["Add"], g.H["Mul"], g.H["sin"]])
        n = rng.choice((0, 1, 2, 2, 2, 3, 5))
        args = [g.pick(pool, 0.85) for _ in range(n)]
        if rng.random() < 0.2:
            args.append(g.i(rng.choice(SPECIAL)))
        pool.append(g.call(h, args))
    for k in set([pool[-1]] + [rng.choice(pool) for _ in range(5)]):
        g.add({"op": "count", "a": [g.r(k)]})
    return g.script(needvals=False)


# ------------------------------------------------------------------ C17, C13 (numbers)

def points(rng, names, n):
    def value(kind):
        c = rng.random()
        if kind == "int":
            return rng.choice((0, 1, -1, 2, 3, -2, rng.randint(-9, 9)))
        if kind == "positive":
            return rng.uniform(0.01, 4).hex()
        if c < 0.35:
            return rng.uniform(-3, 3).hex()
        if c < 0.45:
            return float(rng.randint(-6, 6)).hex()
        if c < 0.55:
            return (rng.randint(-64, 64) / 16).hex()
        if c < 0.65:
            return rng.choice((0.0, -0.0, 1.0, -1.0, 0.5, 1e-8, -1e-6, 1e5, 1e-3, 2.0**-11, 1e-4, 5e-4, -7e-4, 3e-3, 6e-5,
                               2.0**-26, 1e-10)).hex()
        if c < 0.8:
            return (rng.choice((1, -1)) * rng.uniform(0.5, 5) * 10.0 ** rng.randint(-6, 3)).hex()
        if c < 0.9:
            return rng.choice((1, -1)) * rng.choice((100, 355, 1000, rng.randint(33, 32000), rng.randint(20000, 32000)))
        return rng.randint(-12, 12)
    return [[[nm, value(kind)] for nm in names]
            for kind in (rng.choice(("int", "int", "positive", "any", "any")) for _ in range(n))]


def whole(v):
    """Bits of an integer value."""
    v = float.fromhex(v) if isinstance(v, str) else v
    return max(1, abs(int(v)).bit_length()) if v == int(v) else 1


# symbols whose names are those of numbers, functions or other expressions
STRANGE = ["1", "2", "-1", "0", "sin", "pow", "Add", "x + y", "2*x", "sin(x)", "pi", "x"]


def few_names(rng, plain, n, odd=0.2):
    names = rng.sample(plain, n)
    if rng.random() < odd:
        more = [m for m in rng.sample(STRANGE, rng.randint(1, 2)) if m not in names]
        names[:len(more)] = more
    return names


def numeric_script(rng, prop="C17", sympy=True):
    g = G(rng, prop)
    g.heads()
    names = few_names(rng, ["x", "y", "z", "t"], rng.randint(1, 3))
    syms = [g.sym(n) for n in names]
    pool = g.exprs(syms, rng.randint(2, 8), pow_any=rng.random() < 0.3, arity=(0, 1, 2, 2, 3, 3, 4, 6), big=False,
                   exps=rng.choice(((2, 3, -1, 1, 0, -2, 5), (2, 3, -1, 7, 9, -3, 4, 6, 8, -5, 11, 15))))
    if rng.random() < 0.4:          # a function of nothing but a symbol
        pool.append(g.call(g.H[rng.choice(("sin", "cos"))], [g.r(rng.choice(syms))]))
        if rng.random() < 0.3:
            pool.append(g.bin(rng.choice("+*-"), g.r(pool[-1]), g.smallint()))
    npts = rng.randint(1, 3)
    pts = points(rng, names, npts)
    routes = ["f64", "f64", "binexp", "subst", "partly", "evaluator", "lambdify", "element"]
    if sympy:
        routes.append("sympy")
    for _ in range(rng.randint(1, 3)):
        e = rng.choice(pool[-4:])
        pt = rng.randint(1, npts)
        for r in rng.sample(routes, rng.randint(3, len(routes))):
            if r == "sympy" and bits(g.term[e], sym=max(whole(v) for _, v in pts[pt - 1])) > 3000:
                continue
            g.add({"op": "num", "a": [g.r(e)], "pt": pt, "route": r, "k": rng.randint(0, 1)})
            if rng.random() < 0.2:      # something else in between
                g.add({"op": "num", "a": [g.r(rng.choice(pool))], "pt": rng.randint(1, npts),
                       "route": rng.choice(routes[:6])})
    return g.script(pts=pts, needvals=False)


def many_compiled_script(rng, count, prop="C13"):
    """Many functions alive at the same time."""
    g = G(rng, prop)
    g.heads()
    names = ["x", "y"]
    x, y = [g.sym(n) for n in names]
    pts = points(rng, names, 2)
    fs = []
    for n in range(count):
        e = g.bin("+", g.r(g.bin("*", g.r(x), g.i(n + 2))), g.r(g.bin("*", g.r(y), g.i(n % 7 - 3))))
        if n % 3 == 1:
            e = g.call(g.H["Add"], [g.r(e), g.i(n), g.r(y)])
        if n % 5 == 3:
            m = g.add({"op": "mat", "nr": 1, "nc": 2, "a": [g.r(e), g.i(0)]})
            fs.append(g.add({"op": "lam", "m": m, "ps": [g.r(y), g.r(x)]}))
        else:
            fs.append(g.add({"op": "lam", "a": [g.r(e)], "ps": [g.r(y), g.r(x)]}))
    g.add({"op": "gc"})
    for f in fs:
        g.add({"op": "lcall", "f": f, "pt": rng.randint(1, 2)})
    g.add({"op": "arrays"})
    return g.script(pts=pts)


def compiled_script(rng, prop="C13"):
    g = G(rng, prop)
    g.heads()
    names = rng.sample(["x", "y", "z", "_out", ".0", "1a"], rng.randint(1, 3))
    syms = [g.sym(n) for n in names]
    pool = g.exprs(syms, rng.randint(3, 8), pow_any=rng.random() < 0.2, arity=(0, 1, 2, 3, 4), big=False)
    npts = rng.randint(1, 3)
    pts = points(rng, names, npts)
    fs = []

    def compile():
        ps = list(syms)
        rng.shuffle(ps)
        if rng.random() < 0.06:
            ps = ps[1:]
        ps = [g.r(p) for p in ps]
        if rng.random() < 0.5:
            fs.append(g.add({"op": "lam", "a": [g.r(rng.choice(pool[-5:] + syms))], "ps": ps}))
            return
        nr, nc = (rng.randint(1, 3), rng.randint(1, 3)) if rng.random() < 0.8 else (rng.randint(3, 6), rng.randint(3, 6))
        zeros = rng.choice((0.4, 0.4, 0.1, 0.8))
        es = [g.i(0) if rng.random() < zeros else
              (g.i(rng.choice(SPECIAL)) if rng.random() < 0.15 else g.r(rng.choice(pool[-6:] + syms)))
              for _ in range(nr * nc)]
        m = g.add({"op": "mat", "nr": nr, "nc": nc, "a": es})
        if rng.random() < 0.25:
            m = g.add({"op": "madd", "x": m, "y": g.add({"op": "mat", "nr": nr, "nc": nc,
                                                         "a": rng.sample(es, len(es))})})
        if rng.random() < 0.2:
            m = g.add({"op": "mdiff", "m": m, "a": [g.r(syms[0])]})
        fs.append(g.add({"op": "lam", "m": m, "ps": ps}))

    compile()
    for _ in range(rng.randint(6, 14)):
        c = rng.random()
        if c < 0.3:
            compile()
        elif c < 0.85:
            g.add({"op": "lcall", "f": rng.choice(fs), "pt": rng.randint(1, npts), "spoil": rng.random() < 0.2})
        elif c < 0.92:
            g.add({"op": "arrays"})
        elif len(fs) > 1:
            f = rng.choice(fs)
            fs.remove(f)
            g.add({"op": "drop", "r": f})
            g.add({"op": "gc"})
    for f in fs:
        g.add({"op": "lcall", "f": f, "pt": rng.randint(1, npts)})
    g.add({"op": "arrays"})
    return g.script(pts=pts)
