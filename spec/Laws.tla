-------------------------------- MODULE Laws --------------------------------
(* The design of the operations of a session, checked on every expression   *)
(* of Grow (the expression is the last node, Root, of the table):            *)
(*   - derivatives built by the rules are the derivatives (dual numbers);   *)
(*   - printed text and LaTeX, read back, denote the printed expression,    *)
(*     and no two expressions print alike;                                  *)
(*   - generated code computes the expression on the machine of Ssa;        *)
(*   - binary expansion keeps the value, is binary and idempotent;          *)
(*   - a rewriting pass without applicable rule is the identity;            *)
(*   - taking apart and putting together is the identity.                   *)
EXTENDS Session, Grow

CONSTANTS MaxDiff,
          Flaw      \* "none", or a deliberate mistake that must be noticed

Init == GrowInit
EmitTable == IF Gen THEN PrintT(ToJson([table |-> Brief', q |-> [e |-> Len(tab')]])) ELSE TRUE
Next == Grow /\ EmitTable
Spec == Init /\ [][Next]_tab

Vals == Values(tab)
IsTop == CompIds # {}

-----------------------------------------------------------------------------
(* Derivatives *)
Duals(t, vs, dep, v) == << DualAt(t, vs[1], dep, v), DualAt(t, vs[2], dep, v), DualAt(t, vs[3], dep, v) >>

OneStep(t, e, r, v) ==
  LET vs == Values(t)  dep == DependsSeq(t, v)
  IN DerivOK(t, vs, Duals(t, vs, dep, v), e, IF Flaw = "diff" THEN e ELSE r, TRUE)

DiffLaw ==
  IsTop => \A v \in SymIds :
    LET dep == DependsSeq(tab, v)
        off == Offending(tab, Root, dep)
        r   == RuleDiff(tab, Root, v)
    IN IF r.id = -1 THEN off # {}
       ELSE off = {} => /\ OneStep(r.tab, Root, r.id, v)
                        /\ \A n \in 2..MaxDiff :
                             LET a == RuleDiffN(tab, Root, v, n - 1)
                                 b == RuleDiffN(tab, Root, v, n)
                             IN (a.id # -1 /\ b.id # -1) =>
                                   OneStep(b.tab, a.id, b.id, v)

ZeroTimes == IsTop => \A v \in SymIds : RuleDiffN(tab, Root, v, 0) = [tab |-> tab, id |-> Root]
Independent == IsTop => \A v \in SymIds : (~DependsSeq(tab, v)[Root] /\ HeadOf(tab[Root]) # LIST)
                            => (Offending(tab, Root, DependsSeq(tab, v)) = {} =>
                                  LET r == RuleDiff(tab, Root, v)
                                      vs == Values(r.tab)
                                  IN \A k \in 1..K : vs[k][r.id].p \in {0, -1})

-----------------------------------------------------------------------------
(* Printing: tokens as the reader takes them *)
TokOp(o)   == [k |-> "op", v |-> o, n |-> CompNode(<<>>)]
TokName(s) == [k |-> "name", v |-> s, n |-> CompNode(<<>>)]
TokNum(nd) == [k |-> "num", v |-> nd.nm, n |-> nd]

Join(ts, sep) == FoldLeftDomain(LAMBDA acc, i : IF i = 1 THEN ts[1] ELSE acc \o sep \o ts[i], <<>>, ts)
Paren(t) == <<TokOp("(")>> \o t \o <<TokOp(")")>>

NeedsBrackets(nd) == Flaw # "brackets" /\ ((nd.ty = "Integer" /\ nd.x < 0) \/ (~IsAtom(nd) /\ HeadOf(nd) = POW))

TokAtom(nd) ==
  IF nd.ty = "Integer"
  THEN IF nd.x < 0 THEN <<TokOp("-"), TokNum(IntNode(ToString(-nd.x), -nd.x))>> ELSE <<TokNum(nd)>>
  ELSE <<TokName(nd.nm)>>

Printed(tex) ==
  FoldLeftDomain(LAMBDA acc, i :
    LET nd == tab[i] IN
    Append(acc,
      IF IsAtom(nd) THEN TokAtom(nd)
      ELSE LET ts == SeqMap(LAMBDA c : acc[c], Args(nd))
               h  == HeadOf(nd)
           IN CASE h = ADD -> Paren(Join(ts, <<TokOp("+")>>))
                [] h = MUL -> Paren(Join(ts, <<TokOp("*")>>))
                [] h = POW /\ Len(ts) = 2 ->
                     (IF NeedsBrackets(tab[nd.ch[2]]) THEN Paren(ts[1]) ELSE ts[1])
                     \o (IF tex THEN <<TokOp("^"), TokOp("{")>> \o ts[2] \o <<TokOp("}")>>
                         ELSE <<TokOp("**")>> \o ts[2])
                [] OTHER -> acc[h] \o Paren(Join(ts, <<TokOp(",")>>))),
    <<>>, tab)

Legal(e) ==
  \A i \in Reach(tab, e) : IsAtom(tab[i]) \/
     LET h == HeadOf(tab[i])  n == Len(tab[i].ch) - 1
     IN CASE h \in {ADD, MUL} -> n >= 1 [] h = POW -> n = 2 [] OTHER -> TRUE
Twos(e) == \A i \in Reach(tab, e) : IsAtom(tab[i]) \/ (HeadOf(tab[i]) \in {ADD, MUL} => Len(tab[i].ch) >= 3)

Reads(tex) ==
  LET vs == Vals  r == Read(tab, vs, Printed(tex)[Root])
  IN r.ok /\ \A k \in 1..K : Agree(r.v[k], vs[k][Root]) /\ (vs[k][Root].p >= 0 => r.v[k].p >= 0)

PrintLaw   == IsTop /\ Legal(Root) => Reads(FALSE) /\ Reads(TRUE)
InjectLaw  == LET pr == Printed(FALSE)
                  S == {i \in 1..Len(tab) : Twos(i) /\ tab[i].ty # "Function"}
              IN \A i \in S : \A j \in S : pr[i] = pr[j] => i = j

-----------------------------------------------------------------------------
(* Code: one instruction per distinct compound of the expanded form.        *)
Instr(t, i, slot(_)) ==
  LET h == HeadOf(t[i])
  IN [o |-> CASE h = ADD -> "add" [] h = MUL -> "mul" [] h = POW -> "pow" [] h = SIN -> "sin" [] h = COS -> "cos"
              [] OTHER -> "?",
      d |-> i,
      s |-> SeqMap(slot, IF Flaw = "code" THEN Reverse(Args(t[i])) ELSE Args(t[i])), n |-> 0]

Supported(t, e, args) ==
  \A i \in Reach(t, e) :
     IF IsAtom(t[i]) THEN t[i].ty = "Integer" \/ i \in ToSet(args)
     ELSE LET h == HeadOf(t[i])  n == Len(t[i].ch) - 1
          IN (h \in {ADD, MUL} /\ n = 2) \/ (h = POW /\ n = 2) \/ (h \in {SIN, COS} /\ n = 1)

CodeFor(t, e, args) ==
  LET R == Reach(t, e)
      src(c) == IF ~IsAtom(t[c]) THEN [k |-> "reg", v |-> c, n |-> t[c]]
                ELSE IF c \in ToSet(args) THEN [k |-> "arg", v |-> SelectInSeq(args, LAMBDA a : a = c), n |-> t[c]]
                ELSE [k |-> "const", v |-> 0, n |-> t[c]]
      body == FoldLeft(LAMBDA acc, i : IF i \in R /\ ~IsAtom(t[i]) THEN Append(acc, Instr(t, i, src)) ELSE acc,
                       <<>>, [i \in 1..e |-> i])
  IN Append(body, [o |-> "ret", d |-> 0, s |-> <<src(e)>>, n |-> 0])

Perms(S) == {s \in [1..Cardinality(S) -> S] : NoRepeat(s)}

CodeLaw ==
  IsTop => LET x == BinExpand(tab, Root)
           IN \A args \in Perms(SymIds) :
                Supported(x.tab, x.id, args) =>
                   LET vs == Values(x.tab)
                   IN ReturnsValue(x.tab, vs, CodeFor(x.tab, x.id, args), args, Root)

-----------------------------------------------------------------------------
ExpandLaw ==
  IsTop => LET x == IF Flaw = "expand" THEN LeftFold(tab, HeadOf(tab[Root]), Args(tab[Root])) ELSE BinExpand(tab, Root)
               y == BinExpand(x.tab, x.id)
               vs == Values(x.tab)
           IN /\ AllBinary(x.tab, x.id)
              /\ \A k \in 1..K : vs[k][Root] = vs[k][x.id]
              /\ y = x
              /\ AllBinary(tab, Root) => x.id = Root

IdentityLaw ==
  IsTop => /\ Transform(tab, Root, <<>>, <<>>) = [tab |-> tab, id |-> Root]
           /\ \A h \in HeadIds \ {HeadOf(tab[i]) : i \in Reach(tab, Root) \cap CompIds} :
                Transform(tab, Root, <<[h |-> h, kind |-> "const", to |-> ZERO]>>, <<>>) = [tab |-> tab, id |-> Root]

PartsLaw == IsTop => MkComp(tab, <<HeadOf(tab[Root])>> \o Args(tab[Root])).id = Root

(* Counting with multiplicity agrees with counting paths *)
RECURSIVE Count(_)
Count(i) == IF IsAtom(tab[i]) THEN 1
            ELSE FoldLeft(LAMBDA a, c : a + Count(c), 1, Args(tab[i]))
CountLaw == IsTop => TreeCountSeq(tab, 32749)[Root] = Count(Root) % 32749
=============================================================================
