------------------------------- MODULE Reader -------------------------------
(* Reading printed expressions: a shift/reduce reader for ordinary infix    *)
(* notation.  A token is [k, v, n]: k is "num", "name", or "op" with v one  *)
(* of + - * / ** ^ ( ) { } , and n the node of a number.  Power binds       *)
(* tightest and to the right, then the sign, then products, then sums.      *)
(* In LaTeX mode the exponent follows ^ in braces (or is one token) and a   *)
(* second superscript is an error.  The result is the value of the text at  *)
(* the K points of Algebra, or "unreadable".                                *)
EXTENDS Algebra

Prec(o) == CASE o = "+" -> 1 [] o = "b-" -> 1 [] o = "*" -> 2 [] o = "/" -> 2
             [] o = "u-" -> 3 [] o = "**" -> 4 [] OTHER -> 0

Vec(F(_)) == << F(1), F(2), F(3) >>

RS0 == [out |-> <<>>, ops |-> <<>>, want |-> TRUE, ok |-> TRUE, prev |-> "", pw |-> FALSE]
Fail(st) == [st EXCEPT !.ok = FALSE]
Op(o) == [o |-> o, h |-> 0, base |-> 0, pw |-> FALSE]

Top(s)  == s[Len(s)]
Pop(s)  == SubSeq(s, 1, Len(s) - 1)

PushV(st, v) == [st EXCEPT !.out = Append(@, v), !.want = FALSE]

(* Apply the operator on top of the stack                                   *)
Reduce(st) ==
  LET o == Top(st.ops).o
      n == Len(st.out)
  IN IF o = "u-"
     THEN IF n < 1 THEN Fail(st)
          ELSE [st EXCEPT !.ops = Pop(@),
                 !.out = Append(Pop(@), Vec(LAMBDA k : MulV(IntVal(-1), st.out[n][k])))]
     ELSE IF n < 2 THEN Fail(st)
     ELSE LET a == st.out[n - 1]
              b == st.out[n]
              r == CASE o = "+"  -> Vec(LAMBDA k : AddV(a[k], b[k]))
                     [] o = "b-" -> Vec(LAMBDA k : AddV(a[k], MulV(IntVal(-1), b[k])))
                     [] o = "*"  -> Vec(LAMBDA k : MulV(a[k], b[k]))
                     [] o = "/"  -> Vec(LAMBDA k : MulV(a[k], PowV(b[k], IntVal(-1))))
                     [] OTHER    -> Vec(LAMBDA k : PowV(a[k], b[k]))
          IN [st EXCEPT !.ops = Pop(@), !.out = Append(SubSeq(@, 1, n - 2), r)]

RECURSIVE ReduceWhile(_, _)
ReduceWhile(st, p) ==       \* reduce operators binding tighter than p
  IF ~st.ok \/ st.ops = <<>> \/ Prec(Top(st.ops).o) <= p THEN st
  ELSE ReduceWhile(Reduce(st), p)

Binary(st, o, p) ==
  IF st.want THEN Fail(st)
  ELSE LET s == ReduceWhile(st, p)
       IN [s EXCEPT !.ops = Append(@, Op(o)), !.want = TRUE]

(* h: the head when the bracket opens the arguments of a call               *)
Open(st, o, h) ==
  IF ~st.want THEN Fail(st)
  ELSE [st EXCEPT !.ops = Append(@, [o |-> o, h |-> h, base |-> Len(st.out), pw |-> st.pw]), !.want = TRUE]

Close(st, o) ==
  IF st.want /\ ~(st.prev = "(" /\ st.ops # <<>> /\ Top(st.ops).h # 0) THEN Fail(st)
  ELSE LET s == ReduceWhile(st, 0)
       IN IF ~s.ok \/ s.ops = <<>> \/ Top(s.ops).o # o THEN Fail(st)
          ELSE LET t == Top(s.ops)
                   n == Len(s.out)
                   vs == SubSeq(s.out, t.base + 1, n)
               IN IF t.h # 0
                  THEN [s EXCEPT !.ops = Pop(@), !.want = FALSE,
                         !.out = Append(SubSeq(@, 1, t.base),
                                   Vec(LAMBDA k : OpV(t.h, SeqMap(LAMBDA v : v[k], vs))))]
                  ELSE IF Len(vs) # 1 THEN Fail(st)
                  ELSE [s EXCEPT !.ops = Pop(@), !.want = FALSE]

FindName(tab, kinds, nm) == SelectInSeq(tab, LAMBDA n : IsAtom(n) /\ n.nm = nm /\ n.ty \in kinds)
SymKinds == {"Symbol", "Wild"}
ValueName(tab, nm) == LET f == FindName(tab, SymKinds, nm) IN IF f # 0 THEN f ELSE FindName(tab, {"Function"}, nm)

Step(tab, vals, toks, st, i) ==
  LET t == toks[i]
      nextOpen == i < Len(toks) /\ toks[i + 1].k = "op" /\ toks[i + 1].v = "("
      s ==
       IF ~st.ok THEN st
       ELSE IF t.k = "num"
            THEN IF st.want THEN PushV(st, Vec(LAMBDA k : Val(t.n.p, t.n.q, t.n.x))) ELSE Fail(st)
       ELSE IF t.k = "name"
            THEN IF ~st.want THEN Fail(st)
                 ELSE IF nextOpen
                 THEN IF FindName(tab, {"Function"}, t.v) = 0 THEN Fail(st) ELSE st
                 ELSE LET f == ValueName(tab, t.v)
                      IN IF f = 0 THEN Fail(st) ELSE PushV(st, Vec(LAMBDA k : vals[k][f]))
       ELSE CASE t.v = "("  -> Open(st, "(", IF i > 1 /\ toks[i - 1].k = "name"
                                             THEN FindName(tab, {"Function"}, toks[i - 1].v) ELSE 0)
              [] t.v = ")"  -> Close(st, "(")
              [] t.v = "{"  -> IF st.prev = "^" THEN Open(st, "{", 0) ELSE Fail(st)
              [] t.v = "}"  -> Close(st, "{")
              [] t.v = ","  -> LET r == ReduceWhile(st, 0)
                               IN IF r.want \/ ~r.ok \/ r.ops = <<>> \/ Top(r.ops).o # "(" \/ Top(r.ops).h = 0
                                  THEN Fail(st) ELSE [r EXCEPT !.want = TRUE]
              [] t.v = "-"  -> IF st.want THEN [st EXCEPT !.ops = Append(@, Op("u-"))]
                               ELSE Binary(st, "b-", 0)
              [] t.v = "+"  -> Binary(st, "+", 0)
              [] t.v \in {"*", "/"} -> Binary(st, t.v, 1)
              [] t.v = "**" -> Binary(st, "**", 4)
              [] t.v = "^"  -> IF st.prev = "}" \/ (i > 2 /\ toks[i - 2].v = "^" /\ toks[i - 2].k = "op") THEN Fail(st)
                               ELSE Binary(st, "**", 4)
              [] OTHER -> Fail(st)
  IN [s EXCEPT !.prev = IF t.k = "op" THEN t.v ELSE ""]

(* "+" and "-" and "*" group from the left: an equal operator on the stack  *)
(* is reduced first, hence the bound one below its own precedence.          *)

Read(tab, vals, toks) ==
  LET r == FoldLeftDomain(LAMBDA st, i : Step(tab, vals, toks, st, i), RS0, toks)
      s == IF r.ok /\ ~r.want THEN ReduceWhile(r, 0) ELSE Fail(r)
  IN IF s.ok /\ s.ops = <<>> /\ Len(s.out) = 1 THEN [ok |-> TRUE, v |-> s.out[1]]
     ELSE [ok |-> FALSE, v |-> <<>>]
=============================================================================
