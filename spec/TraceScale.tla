----------------------------- MODULE TraceScale -----------------------------
(* Large expressions.  A family of expressions is a recurrence: level k + 1 *)
(* is made of level k (and k - 1).  The specification steps through the     *)
(* levels, carrying what it takes to say everything that is measured about  *)
(* a level: value and derivative modulo P, the number of subexpressions     *)
(* with multiplicity modulo three primes.  The number of distinct           *)
(* subexpressions grows by a constant with each level.                      *)
EXTENDS Algebra, Json, IOUtils, TLC

Sessions == JsonDeserialize(IOEnv.TRACES)

VARIABLES s, l, k, cur, prev, bad
vars == <<s, l, k, cur, prev, bad>>

Moduli == <<46337, 32749, 30011>>
Fam == Sessions[s].fam
Least(a, b) == IF a < b THEN a ELSE b
If(c, name) == IF c THEN {} ELSE {name}

(* extra atoms that come with the first level, new nodes and new compounds  *)
(* with each level, distinct heads                                          *)
Shape(f) ==
  CASE f = "double" -> [x |-> 0, n |-> 1, c |-> 1, h |-> 1]
    [] f = "square" -> [x |-> 0, n |-> 1, c |-> 1, h |-> 1]
    [] f = "triple" -> [x |-> 0, n |-> 1, c |-> 1, h |-> 1]
    [] f = "sin"    -> [x |-> 0, n |-> 1, c |-> 1, h |-> 1]
    [] f = "left"   -> [x |-> 1, n |-> 1, c |-> 1, h |-> 1]
    [] f = "right"  -> [x |-> 1, n |-> 1, c |-> 1, h |-> 1]
    [] f = "fib"    -> [x |-> 1, n |-> 1, c |-> 1, h |-> 1]
    [] f = "pow"    -> [x |-> 1, n |-> 1, c |-> 1, h |-> 1]
    [] f = "horner" -> [x |-> 1, n |-> 2, c |-> 2, h |-> 2]
    [] f = "mixed"  -> [x |-> 0, n |-> 2, c |-> 2, h |-> 2]
    [] f = "ladder" -> [x |-> 0, n |-> 3, c |-> 3, h |-> 3]
    [] f = "wide"   -> [x |-> 0, n |-> 2, c |-> 1, h |-> 2]
    [] f = "funs"   -> [x |-> 1, n |-> 1, c |-> 1, h |-> 1]
    [] f = "product" -> [x |-> 0, n |-> 1, c |-> 0, h |-> 1]
    [] f = "heads"  -> [x |-> 1, n |-> 1, c |-> 1, h |-> 0]

(* A random family is given by a table of nodes [op, operands]: each level  *)
(* is the last node.  Operands: -1 the level before, -2 x, -3 y, -4 .. -7   *)
(* the integers 0, 1, 2, -1, otherwise a node of the table.                 *)
Tm == Sessions[s].tm
TmAtoms == UNION {{a \in Range(Tm[j][2]) : a < -2} : j \in 1..Len(Tm)}
TmShape == [x |-> Cardinality(TmAtoms), n |-> Len(Tm), c |-> Len(Tm), h |-> Cardinality({Tm[j][1] : j \in 1..Len(Tm)})]
TmSize == FoldLeft(LAMBDA a, r : a + 2 * Len(r[2]) + 5, 0, Tm)
IsRandom == Fam = "random"
Shp == IF IsRandom THEN TmShape ELSE Shape(Fam)
Distinct(n) == IF n = 0 THEN 1 ELSE 1 + Shp.x + n * Shp.n
Heads(n) == IF Fam = "funs" THEN n + 1 ELSE IF n = 0 /\ Fam \notin {"wide", "product"} THEN 0 ELSE Shp.h
Compounds(n) == n * Shp.c + (IF Fam \in {"wide", "funs", "product"} THEN 1 ELSE 0)
Atoms(n) == Distinct(n) - Compounds(n)

X0 == 12345    Y0 == 271    WideVal(j) == (j * 7919 + 13) % P

Leaf == [v |-> X0, d |-> 1, t |-> <<1, 1, 1>>]
Start == IF Fam = "product" THEN [v |-> 1, d |-> 0, t |-> <<1, 1, 1>>] ELSE IF Fam \in {"wide", "funs"} THEN [v |-> 0, d |-> 0, t |-> <<1, 1, 1>>] ELSE Leaf
Second == [v |-> Y0, d |-> 0, t |-> <<1, 1, 1>>]

M(a, b) == (a * b) % P
D(z) == (2 * z) % P
S(z) == OddPoly(z, P)
C(z) == EvenPoly(z, P)
T(a, b, c, e) == [j \in 1..3 |-> (a * cur.t[j] + b * e.t[j] + c) % Moduli[j]]

TmConst(a) ==
  CASE a = -2 -> [v |-> X0, d |-> 1, t |-> <<1, 1, 1>>]
    [] a = -3 -> [v |-> Y0, d |-> 0, t |-> <<1, 1, 1>>]
    [] OTHER  -> [v |-> CASE a = -4 -> 0 [] a = -5 -> 1 [] a = -6 -> 2 [] OTHER -> P - 1, d |-> 0, t |-> <<1, 1, 1>>]

TmNode(op, as) ==
  LET t == [j \in 1..3 |-> FoldLeft(LAMBDA q, e : (q + e.t[j]) % Moduli[j], 1, as)]
      b == as[1]
  IN CASE op = "Add" -> [v |-> FoldLeft(LAMBDA q, e : (q + e.v) % P, 0, as),
                         d |-> FoldLeft(LAMBDA q, e : (q + e.d) % P, 0, as), t |-> t]
       [] op = "Mul" -> LET r == FoldLeft(LAMBDA q, e : [v |-> M(q.v, e.v), d |-> (M(q.v, e.d) + M(q.d, e.v)) % P],
                                          [v |-> 1, d |-> 0], as)
                        IN [v |-> r.v, d |-> r.d, t |-> t]
       [] op = "pow" -> [v |-> M(b.v, b.v), d |-> M(D(b.v), b.d), t |-> t]
       [] op = "sin" -> [v |-> S(b.v), d |-> M(C(b.v), b.d), t |-> t]
       [] op = "cos" -> [v |-> C(b.v), d |-> M((P - S(b.v)) % P, b.d), t |-> t]

TmStep == LET ns == FoldLeft(LAMBDA acc, r :
                       Append(acc, TmNode(r[1], SeqMap(LAMBDA a : IF a = -1 THEN cur ELSE IF a < 0 THEN TmConst(a)
                                                                  ELSE acc[a], r[2]))), <<>>, Tm)
          IN ns[Len(ns)]

Step ==
  LET v == cur.v  d == cur.d
  IN CASE Fam = "double" -> [v |-> (2 * v) % P, d |-> (2 * d) % P, t |-> T(2, 0, 1, cur)]
       [] Fam = "triple" -> [v |-> (3 * v) % P, d |-> (3 * d) % P, t |-> T(3, 0, 1, cur)]
       [] Fam = "square" -> [v |-> M(v, v), d |-> M(D(v), d), t |-> T(2, 0, 1, cur)]
       [] Fam = "pow"    -> [v |-> M(v, v), d |-> M(D(v), d), t |-> T(1, 0, 2, cur)]
       [] Fam = "sin"    -> [v |-> S(v), d |-> M(C(v), d), t |-> T(1, 0, 1, cur)]
       [] Fam \in {"left", "right"} -> [v |-> (v + Y0) % P, d |-> d, t |-> T(1, 0, 2, cur)]
       [] Fam = "fib"    -> [v |-> (v + prev.v) % P, d |-> (d + prev.d) % P, t |-> T(1, 1, 1, prev)]
       [] Fam = "horner" -> [v |-> (M(v, X0) + 2) % P, d |-> (M(d, X0) + v) % P, t |-> T(1, 0, 4, cur)]
       [] Fam = "mixed"  -> [v |-> (M(v, v) + v) % P, d |-> (M(D(v), d) + d) % P, t |-> T(3, 0, 2, cur)]
       [] Fam = "ladder" -> [v |-> M(S(v), C(v)),
                             d |-> (M(M(C(v), d), C(v)) + M(M(P - S(v), d), S(v))) % P, t |-> T(2, 0, 3, cur)]
       [] Fam = "wide"   -> [v |-> (v + S(WideVal(k + 1))) % P, d |-> IF k = 0 THEN C(WideVal(1)) ELSE d,
                             t |-> T(1, 0, 2, cur)]
       [] Fam = "funs"   -> [v |-> (v + M(WideVal(k + 1), X0)) % P, d |-> 0, t |-> T(1, 0, 2, cur)]
       [] Fam = "product" -> [v |-> M(v, WideVal(k + 1)), d |-> IF k = 0 THEN 1 ELSE M(d, WideVal(k + 1)),
                              t |-> T(1, 0, 1, cur)]
       [] Fam = "heads"  -> cur
       [] IsRandom       -> TmStep

(* Compiled matrices: entry j, counted from 0, is not zero when st divides  *)
(* j: x, x + j and y * j in turn.  Functions of many parameters p1, p2, ..: *)
(* the sum of j * pj, called with the values (j * 31) % 17.                 *)
Cell(ev, j) == CASE j % 3 = 0 -> ev.px [] j % 3 = 1 -> ev.px + j [] OTHER -> ev.py * j
CellsOK(ev) == /\ ev.shape = <<ev.nr, ev.nc>>
               /\ Len(ev.nz) = ((ev.nr * ev.nc - 1) \div ev.st) + 1
               /\ \A i \in 1..Len(ev.nz) : ev.nz[i] = <<(i - 1) * ev.st, Cell(ev, (i - 1) * ev.st)>>
ArgsOK(ev) == ev.v = FoldLeft(LAMBDA acc, j : acc + j * ((j * 31) % 17), 0, [j \in 1..ev.np |-> j])

Verdict(ev) ==
  LET n == ev.n
  IN CASE ev.op = "gcount" -> If(ev.g = Distinct(n), "C16.graphcount")
       [] ev.op = "count" ->
            If(ev.g = Distinct(n), "C16.graphcount")
            \cup If(\A j \in 1..3 : ev.tc[j] = cur.t[j], "C16.treecount")
       [] ev.op = "sort" ->
            If(ev.len = Distinct(n) /\ ev.last /\ ev.late = 0 /\ ev.hlate = 0
               /\ ev.hlen = Distinct(n) + Heads(n), "C16.sort")
       [] ev.op = "graph" ->
            If(ev.atoms = Atoms(n) /\ ev.ops = Compounds(n) /\ ev.heads = Heads(n) /\ ev.late = 0 /\ ev.again,
               "C16.graph")
       [] ev.op = "hsort" ->      \* levels made by calling the level before
            If(ev.len = Least(n + 1, 2) /\ ev.hlen = (IF n = 0 THEN 1 ELSE n + 2) /\ ev.hlate = 0 /\ ev.same, "C16.heads")
       [] ev.op = "eval" -> If(ev.v = cur.v, "C16.value") \cup If(ev.calls = Compounds(n), "C16.calls")
       [] ev.op = "f64" -> If(ev.ok /\ ev.m = 1 /\ ev.e = n, "C16.value")    \* a power of two
       [] ev.op = "diff" -> If(ev.v = cur.d, "C16.derivative") \cup If(ev.size <= (IF IsRandom THEN n * TmSize ELSE 8 * Distinct(n)) + 20, "C16.size")
       [] ev.op \in {"swap", "rows"} -> If(ev.same /\ ev.again, IF ev.op = "swap" THEN "C16.subst" ELSE "C16.matrix")
       [] ev.op = "subst" -> If(ev.same /\ ev.again /\ ev.part, "C16.subst")
       [] ev.op = "rewrite" -> If(ev.same /\ ev.v = cur.v /\ ev.other, "C16.rewrite")
       [] ev.op = "ir" -> If(ev.v = cur.v, "C16.code") \cup If(ev.size <= (IF IsRandom THEN n * TmSize ELSE 3 * Distinct(n)) + 20, "C16.size")
       [] ev.op = "mir" -> If(ev.v = <<cur.v, IF Fam \in {"wide", "product"} THEN WideVal(n) ELSE Y0, -1, cur.v>>, "C16.code")
                           \cup If(ev.size <= (IF IsRandom THEN n * TmSize ELSE 3 * Distinct(n)) + 40, "C16.size")
       [] ev.op = "cells" -> If(CellsOK(ev), "C13.cells")
       [] ev.op = "args" -> If(ArgsOK(ev), "C13.args")
       [] ev.op = "failed" -> {"C13.failed"}
       [] ev.op = "time" -> If(ev.slow < (11000 * ev.times) \div 4 \/ ev.small, "C16.time")
                            \cup If(ev.calls2 <= ev.times * ev.calls1 + (ev.calls1 \div 2) + 1000, "C16.work")
       [] ev.op = "raised" -> {"C16.raised"}
       [] ev.op = "slow" -> {"C16.slow"}
       [] ev.op = "crash" -> {"any.crash"}
       [] OTHER -> {"any.unknown"}

Init == s \in 1..Len(Sessions) /\ l = 1 /\ k = 0 /\ cur = Start /\ prev = Second /\ bad = {}

Climb == /\ l > 0 /\ l <= Len(Sessions[s].ev) /\ k < Sessions[s].ev[l].n
         /\ cur' = Step /\ prev' = cur /\ k' = k + 1
         /\ UNCHANGED <<s, l, bad>>

Event == /\ l > 0 /\ l <= Len(Sessions[s].ev) /\ k = Sessions[s].ev[l].n
         /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Sessions[s].ev[l])}
         /\ l' = l + 1
         /\ UNCHANGED <<s, k, cur, prev>>

Done == l > Len(Sessions[s].ev) /\ l > 0 /\ l' = -1 /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
        /\ UNCHANGED <<s, k, cur, prev, bad>>

Next == Climb \/ Event \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
