-------------------------------- MODULE Ssa --------------------------------
(* A machine for straight line code with single assignment.  An instruction *)
(* is [o, d, s, n]: operation o, destination register d (0: none), source   *)
(* operands s and a number n.  A source is [k, v, n]: k = "reg" a register  *)
(* number v, "arg" the position v of a parameter, "const" the number node n.*)
(*   add mul pow sin cos neg sub : d := o(s)                                *)
(*   ptr   : d := address of output cell n                                  *)
(*   store : cell addressed by s[2] := s[1]                                 *)
(*   ret   : return s[1] (or nothing)                                       *)
(* The machine runs on the values of Algebra; regs is a function from       *)
(* assigned registers to values.                                            *)
EXTENDS Algebra

M0 == [regs |-> <<>>, ids |-> <<>>, ptrs |-> <<>>, mem |-> <<>>, ret |-> <<>>, done |-> FALSE, ok |-> TRUE]
   \* ids[j] is the register whose value is regs[j]; ptrs: <<reg, cell>>; mem: <<cell, value>>

Stop(m) == [m EXCEPT !.ok = FALSE]
RegIx(m, v) == SelectInSeq(m.ids, LAMBDA r : r = v)
PtrIx(m, v) == SelectInSeq(m.ptrs, LAMBDA r : r[1] = v)
MemIx(m, c) == SelectInSeq(m.mem, LAMBDA r : r[1] = c)

SrcOK(m, s, nargs) ==
  CASE s.k = "reg" -> RegIx(m, s.v) # 0
    [] s.k = "arg" -> s.v \in 1..nargs
    [] OTHER -> s.k = "const"

SrcV(m, s, args) ==
  CASE s.k = "reg" -> m.regs[RegIx(m, s.v)]
    [] s.k = "arg" -> args[s.v]
    [] OTHER -> Val(s.n.p, s.n.q, s.n.x)

Arity(o) == IF o \in {"add", "mul", "pow", "sub"} THEN 2 ELSE 1

Compute(o, vs) ==
  CASE o = "add" -> AddV(vs[1], vs[2])
    [] o = "sub" -> AddV(vs[1], MulV(IntVal(-1), vs[2]))
    [] o = "mul" -> MulV(vs[1], vs[2])
    [] o = "pow" -> PowV(vs[1], vs[2])
    [] o = "neg" -> MulV(IntVal(-1), vs[1])
    [] o = "sin" -> SinV(vs[1])
    [] OTHER     -> CosV(vs[1])

Exec(m, c, args) ==
  IF ~m.ok \/ m.done THEN Stop(m)
  ELSE CASE c.o \in {"add", "sub", "mul", "pow", "sin", "cos", "neg"} ->
              IF Len(c.s) # Arity(c.o) \/ RegIx(m, c.d) # 0 \/ PtrIx(m, c.d) # 0
                 \/ \E j \in 1..Len(c.s) : ~SrcOK(m, c.s[j], Len(args))
              THEN Stop(m)
              ELSE [m EXCEPT !.ids = Append(@, c.d),
                      !.regs = Append(@, Compute(c.o, SeqMap(LAMBDA s : SrcV(m, s, args), c.s)))]
         [] c.o = "ptr" ->
              IF RegIx(m, c.d) # 0 \/ PtrIx(m, c.d) # 0 THEN Stop(m)
              ELSE [m EXCEPT !.ptrs = Append(@, <<c.d, c.n>>)]
         [] c.o = "store" ->
              IF ~SrcOK(m, c.s[1], Len(args)) \/ PtrIx(m, c.s[2].v) = 0 THEN Stop(m)
              ELSE LET cell == m.ptrs[PtrIx(m, c.s[2].v)][2]
                       v == SrcV(m, c.s[1], args)
                       j == MemIx(m, cell)
                   IN IF j = 0 THEN [m EXCEPT !.mem = Append(@, <<cell, v>>)]
                      ELSE [m EXCEPT !.mem[j] = <<cell, v>>]
         [] c.o = "ret" ->
              IF c.s = <<>> THEN [m EXCEPT !.done = TRUE]
              ELSE IF ~SrcOK(m, c.s[1], Len(args)) THEN Stop(m)
              ELSE [m EXCEPT !.done = TRUE, !.ret = <<SrcV(m, c.s[1], args)>>]
         [] OTHER -> Stop(m)

Run(code, args) == FoldLeft(LAMBDA m, c : Exec(m, c, args), M0, code)

(* Does the code return the value of node e when run with the values of the *)
(* argument nodes?                                                          *)
ReturnsValue(tab, vals, code, argids, e) ==
  \A k \in 1..K :
     LET m == Run(code, SeqMap(LAMBDA a : vals[k][a], argids))
     IN m.ok /\ m.done /\ m.ret # <<>> /\ Agree(m.ret[1], vals[k][e])
        /\ (vals[k][e].p >= 0 => m.ret[1].p >= 0)

(* Does it fill exactly the cells of an nrows x ncols matrix whose non zero *)
(* entries are given by ent, a sequence of [i, j, id] counting from 0?      *)
(* Cells not stored stay zero.                                              *)
FillsMatrix(tab, vals, code, argids, nrows, ncols, ent) ==
  \A k \in 1..K :
     LET m == Run(code, SeqMap(LAMBDA a : vals[k][a], argids))
     IN /\ m.ok /\ m.done /\ m.ret = <<>>
        /\ \A r \in 1..Len(m.mem) : m.mem[r][1] \in 0..(nrows * ncols - 1)
        /\ \A i \in 0..(nrows - 1) : \A j \in 0..(ncols - 1) :
             LET r == MemIx(m, i * ncols + j)
                 n == SelectInSeq(ent, LAMBDA t : t.i = i /\ t.j = j)
                 want == IF n = 0 THEN IntVal(0) ELSE vals[k][ent[n].id]
                 got  == IF r = 0 THEN IntVal(0) ELSE m.mem[r][2]
             IN Agree(got, want) /\ (want.p >= 0 => got.p >= 0)
=============================================================================
