------------------------------- MODULE Approx -------------------------------
(* Floating point numbers with a bound of their error, in integers of 31    *)
(* bits: a number is m * 2^e with |m| < 2^15, and a value [ok, v, r, x] says *)
(* that the exact result is within r of v; x is the exact integer when the  *)
(* value and everything it was computed from are small integers (else NOX). *)
(*                                                                          *)
(* The routes by which the library evaluates an expression compute with 53  *)
(* bits.  Each must lie within the error bound of this calculation, and     *)
(* since rounding errors scale with the precision, two routes may differ    *)
(* from each other by no more than a tiny fraction of that bound.           *)
EXTENDS Algebra

F(m, e) == [m |-> m, e |-> e]
FZ == F(0, 0)

RECURSIVE Shr(_, _)
Shr(m, e) == IF m >= 32768 THEN Shr(m \div 2, e + 1) ELSE F(m, e)
RECURSIVE Shl(_, _)
Shl(m, e) == IF m < 16384 THEN Shl(m * 2, e - 1) ELSE F(m, e)
Norm(m, e) ==
  IF m = 0 THEN FZ
  ELSE LET a == Abs(m)
           f == IF a >= 32768 THEN Shr(a, e) ELSE Shl(a, e)
       IN IF m < 0 THEN F(-f.m, f.e) ELSE f
NormUp(m, e) ==          \* rounded away from zero, m >= 0
  LET f == Norm(m, e) IN IF f.m = 0 THEN FZ ELSE Norm(f.m + 1, f.e)

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

FNeg(a) == F(-a.m, a.e)
FAbs(a) == F(Abs(a.m), a.e)
FMul(a, b) == Norm(a.m * b.m, a.e + b.e)
FMulUp(a, b) == NormUp(a.m * b.m, a.e + b.e)
FAdd(a, b) ==
  IF a.m = 0 THEN b ELSE IF b.m = 0 THEN a
  ELSE LET h == IF a.e >= b.e THEN a ELSE b
           l == IF a.e >= b.e THEN b ELSE a
           d == h.e - l.e
       IN IF d > 15 THEN h ELSE Norm(h.m * P2[d + 1] + l.m, l.e)
FAddUp(a, b) == LET f == FAdd(a, b) IN IF f.m = 0 THEN FZ ELSE Norm(f.m + 1, f.e)
FSub(a, b) == FAdd(a, FNeg(b))
FShift(a, k) == IF a.m = 0 THEN FZ ELSE F(a.m, a.e + k)
(* comparing through the exact sign of the difference                       *)
FLess(a, b) ==
  LET na == Norm(a.m, a.e)  nb == Norm(b.m, b.e)
  IN IF na.m = 0 \/ nb.m = 0 \/ (na.m < 0) # (nb.m < 0) THEN na.m < nb.m
     ELSE IF na.e # nb.e THEN IF na.m > 0 THEN na.e < nb.e ELSE na.e > nb.e
     ELSE na.m < nb.m
FLeq(a, b) == ~FLess(b, a)
FInv(a) == LET s == IF a.m < 0 THEN -1 ELSE 1 IN Norm(s * (536870912 \div Abs(a.m)), -29 - a.e)

-----------------------------------------------------------------------------
AV(v, r, x) == [ok |-> TRUE, v |-> v, r |-> r, x |-> x]
ABAD == [ok |-> FALSE, v |-> FZ, r |-> FZ, x |-> NOX]
LIMIT == 230
Guard(w) == IF w.v.m # 0 /\ Abs(w.v.e + 14) > LIMIT THEN ABAD
            ELSE IF w.r.m # 0 /\ w.r.e + 14 > LIMIT THEN ABAD ELSE w
Unit(v) == FShift(FAbs(v), -13)

AInt(n) == AV(Norm(n, 0), IF Abs(n) < 32768 THEN FZ ELSE Unit(Norm(n, 0)), n)

AAdd(a, b) ==
  IF ~a.ok \/ ~b.ok THEN ABAD
  ELSE LET x == AddX(a.x, b.x) IN
       IF x # NOX THEN AInt(x)
       ELSE LET v == FAdd(a.v, b.v)
            IN Guard(AV(v, FAddUp(FAddUp(a.r, b.r), FAddUp(Unit(v), FShift(FAddUp(Unit(a.v), Unit(b.v)), -2))), NOX))
AMul(a, b) ==
  IF ~a.ok \/ ~b.ok THEN ABAD
  ELSE LET x == MulX(a.x, b.x) IN
       IF x # NOX THEN AInt(x)
       ELSE LET v == FMul(a.v, b.v)
                e == FAddUp(FMulUp(FAbs(a.v), b.r), FMulUp(FAddUp(FAbs(b.v), b.r), a.r))
            IN Guard(AV(v, FAddUp(e, Unit(v)), NOX))
AInv(a) ==
  IF ~a.ok \/ a.v.m = 0 \/ ~FLess(FShift(a.r, 1), FAbs(a.v)) THEN ABAD
  ELSE LET v == FInv(a.v)
           e == FMulUp(FShift(a.r, 1), FMulUp(FAbs(v), FAbs(v)))
       IN Guard(AV(v, FAddUp(FShift(e, 1), FShift(Unit(v), 1)), NOX))

(* fixed point with 13 bits after the point                                 *)
ToFixed(a) == LET k == a.e + 13 IN
  IF a.m = 0 THEN 0
  ELSE IF k >= 0 THEN a.m * P2[k + 1]
  ELSE IF k < -15 THEN 0 ELSE a.m \div P2[-k + 1]
Fixed(n) == Norm(n, -13)
FxMul(a, b) == (a * b) \div 8192
TWOPI == 51472     PI == 25736     HALFPI == 12868
SinFx(t) ==       \* -PI/2 <= t <= PI/2
  LET t2 == FxMul(t, t)
      t3 == FxMul(t, t2) \div 6     t5 == FxMul(t3, t2) \div 20
      t7 == FxMul(t5, t2) \div 42   t9 == FxMul(t7, t2) \div 72
  IN t - t3 + t5 - t7 + t9
SinReduced(z) ==  \* any z in fixed point, |z| below 2^15 * 8192
  LET k == (z + PI) \div TWOPI
      t == z - k * TWOPI + (k * 14596) \div 100000        \* TWOPI is 0.14596 above 2 pi * 8192
      w == IF t > HALFPI THEN PI - t ELSE IF t < -HALFPI THEN -PI - t ELSE t
  IN SinFx(w)
TrigErr(a) == FAddUp(a.r, F(16384, -24))         \* 2^-10, 8 units of the fixed point
Trig(a, shift, x0) ==
  IF ~a.ok THEN ABAD
  ELSE IF a.x = 0 THEN AInt(x0)
  ELSE IF a.v.m # 0 /\ a.v.e > 0 THEN ABAD             \* beyond 32768
  ELSE AV(Fixed(SinReduced(ToFixed(a.v) + shift)), TrigErr(a), NOX)
ASin(a) == Trig(a, 0, 0)
ACos(a) == Trig(a, HALFPI, 1)

LnFx(m) ==        \* ln(m / 2^14), 2^14 <= m < 2^15
  LET t  == ((m - 16384) * 8192) \div (m + 16384)
      t2 == FxMul(t, t)  t3 == FxMul(t, t2)  t5 == FxMul(t3, t2)  t7 == FxMul(t5, t2)
  IN 2 * (t + t3 \div 3 + t5 \div 5 + t7 \div 7)
ALn(a) ==
  IF ~a.ok \/ a.v.m <= 0 \/ ~FLess(FShift(a.r, 1), a.v) THEN ABAD
  ELSE LET k == a.v.e + 14
           fx == LnFx(a.v.m) + k * 5678 + (k * 26) \div 100
       IN AV(Fixed(fx), FAddUp(FMulUp(FShift(a.r, 1), FShift(FAbs(FInv(a.v)), 1)), F(16384, -24)), NOX)
AExp(a) ==
  IF ~a.ok \/ (a.v.m # 0 /\ a.v.e + 15 > 7) \/ FLess(F(16384, -16), a.r) THEN ABAD
  ELSE LET z == ToFixed(a.v)
           k == z \div 5678
           t == z - k * 5678 - (k * 26) \div 100
           t2 == FxMul(t, t) t3 == FxMul(t2, t) t4 == FxMul(t3, t) t5 == FxMul(t4, t)
           v == Norm(8192 + t + t2 \div 2 + t3 \div 6 + t4 \div 24 + t5 \div 120, k - 13)
       IN Guard(AV(v, FMulUp(v, FAddUp(FShift(a.r, 1), F(16384, -22))), NOX))

APowInt(a, n) == FoldLeft(LAMBDA acc, i : AMul(acc, a), AInt(1), [i \in 1..n |-> i])
APow(a, b) ==
  IF ~a.ok \/ ~b.ok THEN ABAD
  ELSE IF b.x = 0 THEN AInt(1)
  ELSE IF a.x = 1 THEN AInt(1)
  ELSE IF b.x # NOX /\ Abs(b.x) <= 24
       THEN IF a.x = 0 /\ b.x < 0 THEN ABAD
            ELSE IF b.x > 0 THEN APowInt(a, b.x) ELSE AInv(APowInt(a, -b.x))
  ELSE IF a.x = 0 \/ a.v.m <= 0 THEN ABAD
  ELSE AExp(AMul(b, ALn(a)))

AOp(h, vs) ==
  CASE h = ADD -> FoldLeft(AAdd, AInt(0), vs)
    [] h = MUL -> FoldLeft(AMul, AInt(1), vs)
    [] h = POW /\ Len(vs) = 2 -> APow(vs[1], vs[2])
    [] h = SIN /\ Len(vs) = 1 -> ASin(vs[1])
    [] h = COS /\ Len(vs) = 1 -> ACos(vs[1])
    [] OTHER -> ABAD

-----------------------------------------------------------------------------
(* Recorded doubles: [k, s, hi, lo, e, x] is s * (hi * 2^26 + lo) * 2^e     *)
(* with 2^26 <= hi < 2^27; k = "z" is zero, "n" is not a finite number;     *)
(* x is the value when it is a small integer (else NOX).                    *)
OfDouble(d) ==
  CASE d.k = "z" -> AInt(0)
    [] d.k = "n" -> ABAD
    [] d.x # NOX -> AInt(d.x)
    [] OTHER -> LET v == F(d.s * (d.hi \div 4096), d.e + 38)
                IN Guard(AV(v, IF d.hi % 4096 = 0 /\ d.lo = 0 THEN FZ ELSE F(16384, v.e - 13), NOX))

(* The difference of two doubles, as a number rounded up                    *)
DoubleGap(a, b) ==
  LET fa == OfDouble(a).v  fb == OfDouble(b).v
  IN IF a = b THEN FZ
     ELSE IF a.k # "f" \/ b.k # "f" \/ a.s # b.s \/ Abs(a.e - b.e) > 3
          THEN FAddUp(FAbs(fa), FAbs(fb))
     ELSE LET h == IF a.e >= b.e THEN a ELSE b
              l == IF a.e >= b.e THEN b ELSE a
              p == P2[h.e - l.e + 1]
              hi == h.hi * p - l.hi
              lo == h.lo * p - l.lo
          IN IF Abs(hi) > 1 THEN NormUp(Abs(hi) + 17, l.e + 26)
             ELSE NormUp(Abs(hi * 67108864 + lo), l.e)

(* Is the double d a rounding of w?                                         *)
Within(d, w) ==
  \/ ~w.ok
  \/ IF w.x # NOX THEN d.x = w.x
     ELSE d.k # "n" /\ LET g == OfDouble(d)
                       IN FLeq(FAbs(FSub(g.v, w.v)), FAddUp(FAddUp(w.r, g.r), Unit(w.v)))
(* Are two doubles roundings of the same calculation?                       *)
Same(d1, d2, w) ==
  \/ ~w.ok \/ d1 = d2
  \/ d1.k # "n" /\ d2.k # "n" /\ FLeq(DoubleGap(d1, d2), FShift(FAddUp(w.r, Unit(w.v)), -35))

(* Values of the nodes of a table, symbols being given by a sequence of     *)
(* [id, d].                                                                 *)
ApproxValues(tab, point) ==
  FoldLeftDomain(LAMBDA acc, i :
    Append(acc,
      IF IsAtom(tab[i])
      THEN IF tab[i].ty = "Integer" THEN IF tab[i].x # NOX THEN AInt(tab[i].x) ELSE ABAD
           ELSE LET k == SelectInSeq(point, LAMBDA a : a.id = i)
                IN IF k = 0 THEN ABAD ELSE OfDouble(point[k].d)
      ELSE AOp(HeadOf(tab[i]), SeqMap(LAMBDA c : acc[c], Args(tab[i])))), <<>>, tab)
=============================================================================
