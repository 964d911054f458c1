----------------------------- MODULE ApproxLaws -----------------------------
(* Approx bounds its errors: checked where the exact answer is known in     *)
(* integers (dyadic numbers a/16, b/16) and through identities.             *)
EXTENDS Approx
CONSTANTS N, Flaw
VARIABLES a, b
Init == a \in -N..N /\ b \in -N..N
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Num(n) == IF n = 0 THEN AInt(0) ELSE AV(Norm(n, -4), FZ, NOX)
Near(w, m, e) == ~w.ok \/ FLeq(FAbs(FSub(w.v, Norm(m, e))),
                               FAddUp(w.r, FAddUp(Unit(w.v), Unit(Norm(m, e)))))
Grow(w) == IF Flaw = "noerror" THEN [w EXCEPT !.r = FZ] ELSE w
SumOK  == Near(AAdd(Num(a), Num(b)), a + b, -4)
MulOK  == Near(AMul(Num(a), Num(b)), a * b, -8)
MulInv == b # 0 => Near(AMul(AMul(Num(a), Num(b)), Grow(AInv(Num(b)))), a, -4)
PowOK  == \A n \in 0..3 : Near(APow(Num(a), AInt(n)), IF n = 0 THEN 1 ELSE IF n = 1 THEN a ELSE IF n = 2 THEN a * a
                                                     ELSE a * a * a, -4 * n)
(* sin(s + t) = sin s cos t + cos s sin t;  exp(ln a) = a;  a^b * a^-b = 1  *)
TrigOK == Near(AAdd(ASin(AAdd(Num(a), Num(b))),
                    AMul(AInt(-1), AAdd(AMul(Grow(ASin(Num(a))), ACos(Num(b))), AMul(ACos(Num(a)), ASin(Num(b)))))), 0, 0)
(* sine and cosine of some integers in units of 1/8192                       *)
Sines == <<<<1, 6893, 4426>>,
            <<2, 7449, -3409>>,
            <<3, 1156, -8110>>,
            <<7, 5382, 6176>>,
            <<22, -73, -8192>>,
            <<44, 145, 8191>>,
            <<100, -4148, 7064>>,
            <<355, 0, -8192>>,
            <<710, 0, 8192>>,
            <<1000, 6774, 4607>>,
            <<4096, -4871, 6586>>,
            <<9999, 5211, -6321>>,
            <<16384, -4587, -6787>>,
            <<30000, -6575, -4886>>,
            <<32767, 1536, 8047>>>>
SinesOK == a = 0 => \A n \in 1..Len(Sines) :
             LET i == Sines[n][1]
             IN \A s \in {1, -1} :
                  /\ Near(Grow(ASin(AInt(s * i))), s * Sines[n][2], -13)
                  /\ Near(ACos(AInt(s * i)), Sines[n][3], -13)
                  /\ ASin(AInt(s * i)).ok
ExpLnOK == a > 0 => Near(Grow(AExp(ALn(Num(a)))), a, -4)
PowNeg  == a > 0 => Near(AMul(APow(Num(a), Num(b)), APow(Num(a), Num(-b))), 1, 0)
Defined == (a # 0 => AInv(Num(a)).ok) /\ ASin(Num(a)).ok /\ (a > 0 => APow(Num(a), Num(b)).ok)
=============================================================================
