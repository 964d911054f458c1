------------------------------ MODULE Session ------------------------------
(* A user session: a history of library calls over registers.               *)
(*                                                                          *)
(* State: `tab` the table of all expressions mentioned so far, `regs` the   *)
(* results of earlier calls.  Every call is an event `ev`; Outcome says     *)
(* which result the design gives, Verdict which clauses a recorded result   *)
(* breaks.  Calls whose result is fixed by the design (operators,           *)
(* substitution, expansion, rewriting) must give exactly that expression;   *)
(* calls described by meaning (derivatives, printing, conversion, code)     *)
(* may give any expression or text with the right meaning.                  *)
EXTENDS Reader, Ssa, TLC

NoReg      == [t |-> "x", id |-> 0, ts |-> <<>>, nr |-> 0, nc |-> 0]
ExprReg(i) == [t |-> "e", id |-> i, ts |-> <<>>, nr |-> 0, nc |-> 0]
FuncReg(i, ts) == [t |-> "f", id |-> i, ts |-> ts, nr |-> 0, nc |-> 0]
MatReg(nr, nc, ids) == [t |-> "m", id |-> 0, ts |-> ids, nr |-> nr, nc |-> nc]

(* An operand is an earlier result [r] or a literal (r = 0) with node [n]   *)
Res(tab, regs, o) == IF o.r > 0 THEN [tab |-> tab, id |-> regs[o.r].id] ELSE Mk(tab, o.n)

ResAll(tab, regs, os) ==
  FoldLeft(LAMBDA acc, o : LET r == Res(acc.tab, regs, o)
                           IN [tab |-> r.tab, ids |-> Append(acc.ids, r.id)],
           [tab |-> tab, ids |-> <<>>], os)

-----------------------------------------------------------------------------
(* Operators                                                                *)

Bin(tab, o, l, r) ==
  CASE o = "+"  -> MkComp(tab, <<ADD, l, r>>)
    [] o = "*"  -> MkComp(tab, <<MUL, l, r>>)
    [] o = "**" -> MkComp(tab, <<POW, l, r>>)
    [] o = "-"  -> LET m == MkComp(tab, <<MUL, NEG, r>>) IN MkComp(m.tab, <<ADD, l, m.id>>)
    [] o = "/"  -> LET m == MkComp(tab, <<POW, r, NEG>>) IN MkComp(m.tab, <<MUL, l, m.id>>)

(* The derivative built by the rules of the design                          *)
SumTerms(t, terms) ==
  CASE Len(terms) = 0 -> [tab |-> t, id |-> ZERO]
    [] Len(terms) = 1 -> [tab |-> t, id |-> terms[1]]
    [] OTHER -> MkComp(t, <<ADD>> \o terms)

NonZero(ds) == SelectSeq(ds, LAMBDA d : d # ZERO)

PartialRule(t, h, args, n) ==   \* derivative of h with respect to argument n
  CASE h = SIN /\ n = 1 -> MkComp(t, <<COS, args[1]>>)
    [] h = COS /\ n = 1 -> LET s == MkComp(t, <<SIN, args[1]>>) IN MkComp(s.tab, <<MUL, NEG, s.id>>)
    [] h = POW /\ n = 1 /\ Len(args) = 2 ->
          LET e == MkComp(t, <<ADD, args[2], NEG>>)
              p == MkComp(e.tab, <<POW, args[1], e.id>>)
          IN MkComp(p.tab, <<MUL, args[2], p.id>>)
    [] OTHER -> [tab |-> t, id |-> -1]

DiffNode(t, h, args, ds) ==
  IF h = LIST THEN MkComp(t, <<LIST>> \o ds)
  ELSE IF \A j \in 1..Len(ds) : ds[j] = ZERO THEN [tab |-> t, id |-> ZERO]
  ELSE IF \E j \in 1..Len(ds) : ds[j] = -1 THEN [tab |-> t, id |-> -1]
  ELSE LET step(acc, j) ==
             IF ds[j] = ZERO \/ acc.bad THEN acc
             ELSE IF h = ADD THEN [acc EXCEPT !.terms = Append(@, ds[j])]
             ELSE IF h = MUL
             THEN LET m == MkComp(acc.tab, <<MUL>> \o [args EXCEPT ![j] = ds[j]])
                  IN [acc EXCEPT !.tab = m.tab, !.terms = Append(@, m.id)]
             ELSE LET p == PartialRule(acc.tab, h, args, j)
                  IN IF p.id = -1 THEN [acc EXCEPT !.bad = TRUE]
                     ELSE IF ds[j] = ONE THEN [acc EXCEPT !.tab = p.tab, !.terms = Append(@, p.id)]
                     ELSE LET m == MkComp(p.tab, <<MUL, p.id, ds[j]>>)
                          IN [acc EXCEPT !.tab = m.tab, !.terms = Append(@, m.id)]
           r == FoldLeftDomain(step, [tab |-> t, terms |-> <<>>, bad |-> FALSE], args)
       IN IF r.bad THEN [tab |-> t, id |-> -1] ELSE SumTerms(r.tab, r.terms)

RuleDiff(tab, e, v) ==          \* id = -1: refused
  LET R == Reach(tab, e)
      b == FoldLeft(LAMBDA acc, i :
             IF i \notin R THEN [acc EXCEPT !.d = Append(@, 0)]
             ELSE IF IsAtom(tab[i]) THEN [acc EXCEPT !.d = Append(@, IF i = v THEN ONE ELSE ZERO)]
             ELSE LET r == DiffNode(acc.tab, HeadOf(tab[i]), Args(tab[i]),
                                    SeqMap(LAMBDA c : acc.d[c], Args(tab[i])))
                  IN [tab |-> r.tab, d |-> Append(acc.d, r.id)],
             [tab |-> tab, d |-> <<>>], [i \in 1..e |-> i])
  IN [tab |-> b.tab, id |-> b.d[e]]

RECURSIVE RuleDiffN(_, _, _, _)
RuleDiffN(tab, e, v, n) ==
  IF n = 0 \/ e = -1 THEN [tab |-> tab, id |-> e]
  ELSE LET r == RuleDiff(tab, e, v) IN RuleDiffN(r.tab, r.id, v, n - 1)

-----------------------------------------------------------------------------
(* Rules of a rewriting pass refer to operands                              *)
ResRules(tab, regs, rules) ==
  FoldLeft(LAMBDA acc, r :
             LET h == Res(acc.tab, regs, r.h)
                 t == Res(h.tab, regs, r.to)
             IN [tab |-> t.tab, rules |-> Append(acc.rules, [h |-> h.id, kind |-> r.kind, to |-> t.id])],
           [tab |-> tab, rules |-> <<>>], rules)

(* What the design gives: [tab, reg]; t = "x": the call is refused          *)
OutE(r) == [tab |-> r.tab, reg |-> IF r.id = -1 THEN NoReg ELSE ExprReg(r.id)]

ValueOps == {"atom", "bin", "neg", "pos", "call", "subst", "mkfun", "apply", "diff",
             "binexp", "xform", "copy"}

Outcome(tab, regs, ev) ==
  LET A == IF ev.op = "atom" THEN [tab |-> tab, ids |-> <<>>] ELSE ResAll(tab, regs, ev.a)
      a == A.ids
  IN CASE ev.op = "atom" -> OutE(Mk(tab, ev.n))
       [] ev.op = "bin"  -> OutE(Bin(A.tab, ev.o, a[1], a[2]))
       [] ev.op = "neg"  -> OutE(MkComp(A.tab, <<MUL, NEG, a[1]>>))
       [] ev.op \in {"pos", "copy"} -> [tab |-> A.tab, reg |-> ExprReg(a[1])]
       [] ev.op = "call" -> OutE(MkComp(A.tab, a))
       [] ev.op = "subst" ->
            LET T == ResAll(A.tab, regs, ev.ts)
                S == ResAll(T.tab, regs, ev.rs)
            IN OutE(Subst(S.tab, a[1], T.ids, S.ids))
       [] ev.op = "mkfun" ->
            LET T == ResAll(A.tab, regs, ev.ts)
            IN [tab |-> T.tab, reg |-> FuncReg(a[1], T.ids)]
       [] ev.op = "apply" ->
            LET S == ResAll(A.tab, regs, ev.rs)
                f == regs[ev.f]
            IN IF Len(S.ids) # Len(f.ts) THEN [tab |-> S.tab, reg |-> NoReg]
               ELSE OutE(Subst(S.tab, f.id, f.ts, S.ids))
       [] ev.op = "diff" -> OutE(RuleDiffN(A.tab, a[1], a[2], ev.k))
       [] ev.op = "binexp" -> OutE(BinExpand(A.tab, a[1]))
       [] ev.op = "xform" ->
            LET H == ResRules(A.tab, regs, ev.hr)
                B == ResRules(H.tab, regs, ev.ar)
            IN OutE(Transform(B.tab, a[1], H.rules, B.rules))

=============================================================================
