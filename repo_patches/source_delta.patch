From 5780e3354642560b282f6ae20ba67452946d7100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 01/12] fix: substituting for the whole expression ignored all
 but the last argument

SubsFunc(expr, [expr, x])(a, b) returned b instead of a because the top of
the stack is the last argument when expr is itself one of the arguments.
---
 src/protosym/core/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..010e8a7 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,7 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +524,8 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        # This is the top of the stack unless expr is itself one of the args.
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From 142354fbb20d6beeaaf7b6caded9d53e3da2e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 02/12] fix: equal expressions built by two threads could be
 distinct objects

WeakValueDictionary.setdefault is not atomic: two threads can both find the
key missing and then each store and return their own object.
---
 src/protosym/core/atom.py  |  3 ++-
 src/protosym/core/store.py | 25 +++++++++++++++++++++++++
 src/protosym/core/sym.py   |  3 +--
 src/protosym/core/tree.py  |  2 +-
 4 files changed, 29 insertions(+), 4 deletions(-)
 create mode 100644 src/protosym/core/store.py

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..c9eb688 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -10,7 +10,8 @@ from typing import Any, cast
 from typing import Generic as _Generic
 from typing import Hashable as _Hashable
 from typing import TypeVar as _TypeVar
-from weakref import WeakValueDictionary as _WeakDict
+
+from protosym.core.store import WeakStore as _WeakDict
 
 __all__ = [
     "Atom",
diff --git a/src/protosym/core/store.py b/src/protosym/core/store.py
new file mode 100644
index 0000000..d6efd72
--- /dev/null
+++ b/src/protosym/core/store.py
@@ -0,0 +1,25 @@
+"""The weak tables in which unique objects are stored."""
+
+from __future__ import annotations
+
+from threading import RLock as _RLock
+from typing import Any
+from weakref import WeakValueDictionary as _WeakValueDictionary
+
+__all__ = ["WeakStore"]
+
+
+class WeakStore(_WeakValueDictionary):  # type: ignore[type-arg]
+    """A :class:`WeakValueDictionary` with an atomic :meth:`setdefault`.
+
+    The ``setdefault`` method of :class:`WeakValueDictionary` looks up the key
+    and stores the default value in separate steps so that two threads can both
+    find the key missing and then both store, and be given, their own value.
+    """
+
+    _lock = _RLock()
+
+    def setdefault(self, key: Any, default: Any = None) -> Any:
+        """Return the value for key, storing default if there is none."""
+        with self._lock:
+            return super().setdefault(key, default)
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..6015ea3 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -16,12 +16,11 @@ from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 if _TYPE_CHECKING:
     from typing_extensions import Self
 
-from weakref import WeakValueDictionary as _WeakDict
-
 from protosym.core.atom import AtomType
 from protosym.core.differentiate import DiffProperties, diff_forward
 from protosym.core.evaluate import Evaluator
 from protosym.core.exceptions import BadRuleError
+from protosym.core.store import WeakStore as _WeakDict
 from protosym.core.tree import SubsFunc, Tr, Tree
 
 __all__ = ["Sym", "SymAtomType", "SymEvaluator"]
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 010e8a7..c284ca4 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,9 +7,9 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
-from weakref import WeakValueDictionary as _WeakDict
 
 from protosym.core.atom import Atom, AtomType
+from protosym.core.store import WeakStore as _WeakDict
 
 if _TYPE_CHECKING:
     from protosym.core.atom import AnyAtom
-- 
2.43.0


From e2a714fbb9e0dca548dd95421bd1beae6b195eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 03/12] fix: powers of powers and of negative numbers were
 printed ambiguously

(x**2)**3 was printed as x**2**3 which means x**8 (and as x^{2}^{3} which is
not valid LaTeX) and (-1)**2 was printed as -1**2 which means -1.
---
 src/protosym/simplecas/functions.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..8ad516e 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -57,13 +57,31 @@ eval_f64[cos(a)] = f64_cos(a)
 #                                                                           #
 # ------------------------------------------------------------------------- #
 
+
+def _power_base(base: str) -> str:
+    """Bracket the base of a power where it would otherwise be misread.
+
+    A power binds more tightly than the sign of a negative number and it groups
+    from the right so the brackets in ``(-1)**2`` and ``(x**y)**z`` are needed.
+    """
+    depth = 0
+    for char in base:
+        if char in "({":
+            depth += 1
+        elif char in ")}":
+            depth -= 1
+        elif depth == 0 and char in "-*^":
+            return f"({base})"
+    return base
+
+
 repr_atom = AtomFunc[str](str)
 repr_call = HeadOp[str](lambda head, args: f'{head}({", ".join(args)})')
 str_from_int = PyFunc1[int, str](str)
 str_from_str = PyFunc1[str, str](str)
 repr_add = PyOpN[str](lambda args: f'({" + ".join(args)})')
 repr_mul = PyOpN[str](lambda args: f'({"*".join(args)})')
-repr_pow = PyOp2[str](lambda b, e: f"{b}**{e}")
+repr_pow = PyOp2[str](lambda b, e: f"{_power_base(b)}**{e}")
 
 
 eval_repr[HeadRule(a, b)] = repr_call(a, b)
@@ -83,7 +101,7 @@ eval_repr[a**b] = repr_pow(a, b)
 
 latex_add = PyOpN(lambda args: f'({" + ".join(args)})')
 latex_mul = PyOpN(lambda args: "(" + r" \times ".join(args) + ")")
-latex_pow = PyOp2(lambda b, e: f"{b}^{{{e}}}")
+latex_pow = PyOp2(lambda b, e: f"{_power_base(b)}^{{{e}}}")
 latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
-- 
2.43.0


From f56e82b6ca2b7eb29d6040db7cb9d20faffd1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 04/12] fix: an all zero SymPy matrix could not be converted

Its empty tuple of elements and likewise the call of an undefined function
with no arguments have no args and were taken for unsupported atoms.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..edfd3d6 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,7 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From 15e1d912541b739f8418ed2af1548ce07d211c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 05/12] fix: binary expansion and lambdify failed for empty
 sums and products

---
 src/protosym/simplecas/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/expr.py b/src/protosym/simplecas/expr.py
index dcfe686..9867459 100644
--- a/src/protosym/simplecas/expr.py
+++ b/src/protosym/simplecas/expr.py
@@ -557,8 +557,8 @@ Mul = Function("Mul")
 List = Function("List")
 
 bin_expand = Transformer()
-bin_expand.add_opn(Add.rep, lambda args: reduce(Add.rep, args))
-bin_expand.add_opn(Mul.rep, lambda args: reduce(Mul.rep, args))
+bin_expand.add_opn(Add.rep, lambda args: reduce(Add.rep, args) if args else zero.rep)
+bin_expand.add_opn(Mul.rep, lambda args: reduce(Mul.rep, args) if args else one.rep)
 
 #
 # An evaluator to count the size of an expression tree.
-- 
2.43.0


From 41afd633e3435b55172b9ee3c8d23a118eb6c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 06/12] fix: lambdify failed for symbols named like names in
 the generated code

Symbols called e.g. .0 or _out or with a quote in their name gave LLVM code
that could not be parsed.
---
 src/protosym/simplecas/lambdification.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..2e0c1c3 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import ctypes
+import re
 import struct
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, Callable
@@ -20,6 +21,21 @@ def _double_to_hex(f: float) -> str:
     return hex(struct.unpack("<Q", struct.pack("<d", f))[0])
 
 
+def _argument_names(symargs: list[Tree]) -> dict[Tree, str]:
+    """Names for the arguments of the generated function.
+
+    The name of a symbol is used if it is an ordinary name. Otherwise it might
+    need quoting or be the same as a name of the generated code like ``.0``.
+    """
+    names = {}
+    for n, s in enumerate(symargs):
+        name = str(s)
+        if name == "_out" or not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", name):
+            name = f".arg{n}"
+        names[s] = f'%"{name}"'
+    return names
+
+
 _llvm_header = """
 ; ModuleID = "mod1"
 target triple = "unknown-unknown-unknown"
@@ -38,7 +54,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +170,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _argument_names(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From dceb84cc275ea1de9df696ca849399dd15513b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 07/12] fix: copying an expression gave a broken or second copy
 of it

copy.copy of a Tree gave a second object for the same tree whose contents
then changed when another tree was copied. Copying an Expr failed.
---
 src/protosym/core/atom.py | 16 ++++++++++++++++
 src/protosym/core/sym.py  |  8 ++++++++
 src/protosym/core/tree.py |  9 +++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index c9eb688..8b26eb2 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -93,6 +93,14 @@ class AtomType(_Generic[_T]):
         """Create an Atom of this type."""
         return Atom(self, value)
 
+    def __copy__(self) -> AtomType[_T]:
+        """An AtomType is identified by its identity so it is not copied."""
+        return self
+
+    def __deepcopy__(self, memo: Any) -> AtomType[_T]:
+        """An AtomType is identified by its identity so it is not copied."""
+        return self
+
 
 class Atom(_Generic[_T]):
     """Low level representation of atomic expressions.
@@ -182,6 +190,14 @@ class Atom(_Generic[_T]):
         """Pretty representation as e.g. ``'1'``."""
         return str(self.value)
 
+    def __copy__(self) -> Atom[_T]:
+        """Equal atoms are the same object so the copy is the same object."""
+        return self
+
+    def __deepcopy__(self, memo: Any) -> Atom[_T]:
+        """Equal atoms are the same object so the copy is the same object."""
+        return self
+
 
 if _TYPE_CHECKING:
     AnyAtom = Atom[_Hashable]
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6015ea3..10ca750 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -187,6 +187,14 @@ class Sym:
         """
         return str(self.rep)
 
+    def __copy__(self) -> Self:
+        """Equal expressions are the same object so the copy is the same object."""
+        return self
+
+    def __deepcopy__(self, memo: Any) -> Self:
+        """Equal expressions are the same object so the copy is the same object."""
+        return self
+
     @classmethod
     def new_atom(
         cls: type[T_sym], name: str, typ: type[T_val]
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index c284ca4..fffd9a6 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from typing import TYPE_CHECKING as _TYPE_CHECKING
+from typing import Any
 
 from protosym.core.atom import Atom, AtomType
 from protosym.core.store import WeakStore as _WeakDict
@@ -171,6 +172,14 @@ class Tree:
         else:
             return str(self.value)
 
+    def __copy__(self) -> Tree:
+        """Equal trees are the same object so the copy is the same object."""
+        return self
+
+    def __deepcopy__(self, memo: Any) -> Tree:
+        """Equal trees are the same object so the copy is the same object."""
+        return self
+
 
 # Convenient shorthand for creating atoms
 def Tr(value: AnyAtom) -> Tree:
-- 
2.43.0


From ae92ca6ba758abf2d49a330e3a37e3a928beb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 08/12] fix: time of code generation was quadratic in the
 number of arguments

---
 src/protosym/simplecas/lambdification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index 2e0c1c3..818d78c 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -58,7 +58,7 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
 
     identifiers = []
     for a in graph.atoms:
-        if a in symargs:
+        if a in argnames:
             identifiers.append(argnames[a])
         elif a.value is not None and a.value.atom_type == Integer.atom_type:
             identifiers.append(_double_to_hex(a.value.value))  # type: ignore
@@ -174,7 +174,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     identifiers = []
     for a in graph.atoms:
-        if a in symargs:
+        if a in argnames:
             identifiers.append(argnames[a])
         elif a.value is not None and a.value.atom_type == Integer.atom_type:
             identifiers.append(_double_to_hex(a.value.value))  # type: ignore
-- 
2.43.0


From 1ac2b9f117c58ef0d5322370629768651920b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 09/12] fix: a supplied value None was ignored by forward
 evaluation

---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From 59564e1a5f49a24438e8c73c5a1a37e1d431fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 10/12] fix: converting a SymPy Dummy or Wild made it an
 ordinary symbol

---
 src/protosym/simplecas/sympy_conversions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index edfd3d6..9b76bb9 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -94,7 +94,9 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-    elif isinstance(expr, sympy.Symbol):
+    elif isinstance(expr, sympy.Symbol) and not isinstance(
+        expr, (sympy.Dummy, sympy.Wild)
+    ):
         ret = Symbol(expr.name)  # pyright: ignore
     else:
         raise NotImplementedError("Cannot convert " + type(expr).__name__)
-- 
2.43.0


From 18bfafb2b7877d69ff60b4e5fe63728b4d80f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 11/12] fix: undefined SymPy functions became interpreted ones
 of the same name

---
 src/protosym/simplecas/sympy_conversions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index 9b76bb9..0f01e74 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -119,6 +119,9 @@ def _from_sympy_cache_args(expr: Any, sympy: Any, cache: dict[Any, Expr]) -> Exp
     elif isinstance(expr, sympy.Tuple):
         return List(*args)
     elif isinstance(expr, AppliedUndef):
-        return Function(expr.name)(*args)  # pyright: ignore
+        head = Function(expr.name)  # pyright: ignore
+        if head in (Add, Mul, Pow, sin, cos, List):
+            raise NotImplementedError("Cannot convert undefined " + str(head))
+        return head(*args)
     else:
         raise NotImplementedError("Cannot convert " + type(expr).__name__)
-- 
2.43.0


From 71416c4a33f4234c3a0d3abfc5ba2c1a5ca9f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:00 +0000
Subject: [PATCH 12/12] fix: refuse to generate code for a wrong number of
 arguments

sin(x, y) was compiled as sin(x), pow(x, y, z) as pow(x, y) and pow(x) failed
with an IndexError. They have no LLVM rule.
---
 src/protosym/simplecas/lambdification.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index 818d78c..62910bc 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -79,12 +79,12 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
@@ -196,12 +196,12 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
-- 
2.43.0

