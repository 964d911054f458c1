------------------------------ MODULE Algebra ------------------------------
(* The meaning of expressions, independent of how the library computes it.  *)
(*                                                                          *)
(* A value is [p, q, x]: residues modulo the prime P and modulo Q = P - 1   *)
(* (used when the value is an exponent: a^e mod P depends on e mod P - 1)   *)
(* and the exact integer when it is known and small (else NOX).  A residue  *)
(* of -1 means "undefined here".  Symbols have fixed pseudo random values   *)
(* at each point k; sin and cos are an odd and an even polynomial, so that  *)
(* identities valid for every odd/even function with sin 0 = 0, cos 0 = 1   *)
(* hold, and other functions are hashes of their argument values.  Two      *)
(* expressions with different meaning agree at all points only by an        *)
(* accident of probability about (degree/P)^K.                              *)
EXTENDS Terms

K == 3
BOUND == 1000000

Val(p, q, x) == [p |-> p, q |-> q, x |-> x]
UNDEF == Val(-1, -1, NOX)
IntVal(n) == Val(n % P, n % Q, n)

Abs(n) == IF n < 0 THEN -n ELSE n

AddX(a, b) == IF a = NOX \/ b = NOX THEN NOX
              ELSE IF Abs(a + b) > BOUND THEN NOX ELSE a + b
MulX(a, b) == IF a = 0 \/ b = 0 THEN 0
              ELSE IF a = NOX \/ b = NOX THEN NOX
              ELSE IF Abs(a) > BOUND \div Abs(b) THEN NOX ELSE a * b

AddM(a, b, m) == IF a < 0 \/ b < 0 THEN -1 ELSE (a + b) % m
MulM(a, b, m) == IF a < 0 \/ b < 0 THEN -1 ELSE (a * b) % m

AddV(a, b) == Val(AddM(a.p, b.p, P), AddM(a.q, b.q, Q), AddX(a.x, b.x))
MulV(a, b) == Val(MulM(a.p, b.p, P), MulM(a.q, b.q, Q),
                  IF a.p < 0 \/ b.p < 0 THEN NOX ELSE MulX(a.x, b.x))

(* b^e modulo m for 0 <= e < 2^31                                           *)
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) ==
  IF e = 0 THEN 1 % m
  ELSE LET h == PowMod(b, e \div 2, m)
           s == (h * h) % m
       IN IF e % 2 = 1 THEN (s * b) % m ELSE s

PowX(b, e) ==
  CASE e = 0 -> 1
    [] b = 1 /\ e # NOX -> 1
    [] b = -1 /\ e # NOX -> IF e % 2 = 0 THEN 1 ELSE -1
    [] b = NOX \/ e = NOX \/ e < 0 -> NOX
    [] b = 0 -> 0
    [] e > 20 -> NOX
    [] OTHER -> FoldLeft(LAMBDA a, i : MulX(a, b), 1, [i \in 1..e |-> i])

PowV(b, e) ==
  IF b.p < 0 THEN UNDEF
  ELSE
  LET x == PowX(b.x, e.x)
      p == IF e.x # NOX /\ e.x >= 0 THEN PowMod(b.p, e.x, P)
           ELSE IF b.p = 0 \/ e.q < 0 THEN -1
           ELSE PowMod(b.p, IF e.x # NOX THEN e.x % Q ELSE e.q, P)
      q == IF x # NOX THEN x % Q
           ELSE IF e.x # NOX /\ e.x >= 0 /\ b.q >= 0 THEN PowMod(b.q, e.x, Q) ELSE -1
  IN Val(p, q, IF p < 0 THEN NOX ELSE x)

OddPoly(z, m) ==
  IF z < 0 THEN -1
  ELSE LET z2 == (z * z) % m
           z4 == (z2 * z2) % m
       IN (z * ((3 + 5 * z2 + ((7 * z4) % m)) % m)) % m
EvenPoly(z, m) ==
  IF z < 0 THEN -1
  ELSE LET z2 == (z * z) % m
           z4 == (z2 * z2) % m
       IN (1 + 2 * z2 + ((11 * z4) % m)) % m

SinV(z) == Val(OddPoly(z.p, P), OddPoly(z.q, Q), IF z.x = 0 THEN 0 ELSE NOX)
CosV(z) == Val(EvenPoly(z.p, P), EvenPoly(z.q, Q), IF z.x = 0 THEN 1 ELSE NOX)

SymVal(i, k) == Val(((i * 7919 + k * 10007 + 12345) % 30011) + 1,
                    ((i * 5003 + k * 13007 + 777) % 30011) + 1, NOX)

HashM(h, vs, m) ==
  FoldLeft(LAMBDA r, v : IF r < 0 \/ v < 0 THEN -1 ELSE (((r * r) % m) + 31 * v + 7) % m,
           (h * 1009 + 17 * Len(vs) + 3) % m, vs)
FunV(h, vs) == Val(HashM(h, SeqMap(LAMBDA v : v.p, vs), P),
                   HashM(h, SeqMap(LAMBDA v : v.q, vs), Q), NOX)

(* The value of head h applied to argument values                           *)
OpV(h, vs) ==
  CASE h = ADD -> FoldLeft(AddV, IntVal(0), vs)
    [] h = MUL -> FoldLeft(MulV, IntVal(1), vs)
    [] h = POW /\ Len(vs) = 2 -> PowV(vs[1], vs[2])
    [] h = SIN /\ Len(vs) = 1 -> SinV(vs[1])
    [] h = COS /\ Len(vs) = 1 -> CosV(vs[1])
    [] OTHER -> FunV(h, vs)

AtomV(node, i, k) ==
  CASE node.ty = "Integer" -> Val(node.p, node.q, node.x)
    [] node.ty = "Opaque" -> UNDEF
    [] OTHER -> SymVal(i, k)

ValuesAt(tab, k) ==
  FoldLeftDomain(LAMBDA acc, i :
    Append(acc, IF IsAtom(tab[i]) THEN AtomV(tab[i], i, k)
                ELSE OpV(HeadOf(tab[i]), SeqMap(LAMBDA c : acc[c], Args(tab[i])))), <<>>, tab)

Values(tab) == << ValuesAt(tab, 1), ValuesAt(tab, 2), ValuesAt(tab, 3) >>

(* Agreement wherever both sides are defined, and on how many points        *)
Agree(a, b)     == a.p < 0 \/ b.p < 0 \/ a.p = b.p
SameMeaning(vals, i, j) == \A k \in 1..K : Agree(vals[k][i], vals[k][j])

-----------------------------------------------------------------------------
(* Derivatives, by dual numbers: d[i] is the derivative of node i with      *)
(* respect to the atom v at one point.  -1: undefined, -2: not supported.   *)

MulD(a, b) == IF a = -2 \/ b = -2 THEN -2 ELSE MulM(a, b, P)
AddD(a, b) == IF a = -2 \/ b = -2 THEN -2 ELSE AddM(a, b, P)

ProdExcept(vs, n) ==
  FoldLeftDomain(LAMBDA acc, j : IF j = n THEN acc ELSE MulM(acc, vs[j].p, P), 1, vs)

OpD(h, vs, ds, dep) ==
  IF \A j \in 1..Len(dep) : ~dep[j] THEN 0
  ELSE IF \E j \in 1..Len(ds) : ds[j] = -2 THEN -2
  ELSE CASE h = ADD -> FoldLeft(AddD, 0, ds)
    [] h = MUL -> FoldLeftDomain(LAMBDA acc, j :
                    AddD(acc, IF ~dep[j] THEN 0 ELSE MulD(ds[j], ProdExcept(vs, j))), 0, vs)
    [] h = POW /\ Len(vs) = 2 /\ ~dep[2] ->
                 MulD(MulD(vs[2].p, PowV(vs[1], AddV(vs[2], IntVal(-1))).p), ds[1])
    [] h = SIN /\ Len(vs) = 1 -> MulD(CosV(vs[1]).p, ds[1])
    [] h = COS /\ Len(vs) = 1 -> MulD(MulD(P - 1, SinV(vs[1]).p), ds[1])
    [] h = LIST -> 0
    [] OTHER -> -2

DualAt(tab, vals, dep, v) ==
  FoldLeftDomain(LAMBDA acc, i :
     Append(acc,
       IF IsAtom(tab[i]) THEN (IF i = v THEN 1 ELSE 0)
       ELSE OpD(HeadOf(tab[i]), SeqMap(LAMBDA c : vals[c], Args(tab[i])),
                SeqMap(LAMBDA c : acc[c], Args(tab[i])), SeqMap(LAMBDA c : dep[c], Args(tab[i])))),
     <<>>, tab)

(* Nodes of e for which no rule exists although they depend on v            *)
Offending(tab, e, dep) ==
  {i \in Reach(tab, e) :
     /\ ~IsAtom(tab[i])
     /\ LET h == HeadOf(tab[i])  a == Args(tab[i])
        IN CASE h \in {ADD, MUL, LIST} -> FALSE
             [] h = POW /\ Len(a) = 2 -> dep[a[2]]
             [] h \in {SIN, COS} /\ Len(a) = 1 -> FALSE
             [] OTHER -> \E j \in 1..Len(a) : dep[a[j]]}

(* Powers of something that is zero at this point                           *)
ZeroBase(tab, e, vals) ==
  \E i \in Reach(tab, e) :
     ~IsAtom(tab[i]) /\ HeadOf(tab[i]) = POW /\ Len(tab[i].ch) = 3 /\ vals[tab[i].ch[2]].p <= 0

(* Is node r a derivative of node e?  Lists element by element.             *)
RECURSIVE DerivOK(_, _, _, _, _, _)
DerivOK(tab, vals, d, e, r, strict) ==
  IF ~IsAtom(tab[e]) /\ HeadOf(tab[e]) = LIST
  THEN /\ ~IsAtom(tab[r]) /\ HeadOf(tab[r]) = LIST /\ Len(tab[r].ch) = Len(tab[e].ch)
       /\ \A j \in 2..Len(tab[e].ch) : DerivOK(tab, vals, d, tab[e].ch[j], tab[r].ch[j], strict)
  ELSE \A k \in 1..K :
         \/ d[k][e] < 0
         \/ vals[k][r].p = d[k][e]
         \/ vals[k][r].p < 0 /\ (~strict \/ ZeroBase(tab, e, vals[k]))

(* The derivative as the rules of the design build it (see Session)         *)
=============================================================================
