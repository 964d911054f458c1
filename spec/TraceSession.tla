---------------------------- MODULE TraceSession ----------------------------
(* Recorded sessions of the real library, checked event by event.           *)
(* A session has the table of all expressions that occur in it (built by    *)
(* the recorder from the structure of the objects) and its events.  `bad`   *)
(* collects <<event number, clause>> for every clause an event breaks.      *)
EXTENDS Session, Approx, Json, IOUtils

Sessions == JsonDeserialize(IOEnv.TRACES)

VARIABLES s, l, tab, vals, regs, printed, bad,
          nvals,     \* approximate values of the nodes at the points of the session
          memo       \* what was computed: <<node, point, route, double>>
vars == <<s, l, tab, vals, regs, printed, bad, nvals, memo>>
View == <<s, l, bad>>

If(c, name) == IF c THEN {} ELSE {name}

(* A fixed result.  The table holds every recorded result, so a result the  *)
(* specification has to add to the table is not the recorded one.           *)
Expect(ev, name) ==
  LET o == Outcome(tab, regs, ev)
  IN If(o.reg.t = ev.res.t /\ o.reg.id = ev.res.id /\ o.reg.ts = ev.res.ts, name)

Ids(os) == ResAll(tab, regs, os).ids

-----------------------------------------------------------------------------
DerivStep(e, r, v) ==
  LET dep == DependsSeq(tab, v)
      off == Offending(tab, e, dep)
      d   == << DualAt(tab, vals[1], dep, v), DualAt(tab, vals[2], dep, v), DualAt(tab, vals[3], dep, v) >>
  IN IF r = 0 THEN If(off # {}, "C08.refused")
     ELSE IF off = {} THEN If(DerivOK(tab, vals, d, e, r, TRUE), "C08.value")
     ELSE If(\A i \in off : \A c \in Below(tab, i, FALSE) : dep[c] => \A k \in 1..K : d[k][c] = 0,
             "C08.unsupported")

DiffVerdict(ev) ==
  LET a == Ids(ev.a)
      chain == <<a[1]>> \o ev.steps
      last == chain[Len(chain)]
  IN UNION {DerivStep(chain[j], chain[j + 1], a[2]) : j \in 1..(Len(chain) - 1)}
     \cup If(IF last = 0 THEN ev.res.t = "x"
             ELSE ev.res.t = "e" /\ ev.res.id = last /\ Len(ev.steps) = ev.k, "C08.ntimes")

-----------------------------------------------------------------------------
LegalArity(e) ==
  \A i \in Reach(tab, e) : IsAtom(tab[i]) \/
     LET h == HeadOf(tab[i])  n == Len(tab[i].ch) - 1
     IN CASE h \in {ADD, MUL} -> n >= 1 [] h = POW -> n = 2 [] h \in {SIN, COS} -> n = 1 [] OTHER -> TRUE

TwoOperands(e) ==
  \A i \in Reach(tab, e) : IsAtom(tab[i]) \/ (HeadOf(tab[i]) \in {ADD, MUL} => Len(tab[i].ch) >= 3)

TextVerdict(ev, name) ==
  LET e == Ids(ev.a)[1]
      r == Read(tab, vals, ev.toks)
  IN IF ev.failed THEN {name \o ".failed"}
     ELSE If(r.ok, name \o ".unreadable")
     \cup (IF r.ok THEN If(\A k \in 1..K : Agree(r.v[k], vals[k][e]) /\ (vals[k][e].p >= 0 => r.v[k].p >= 0),
                           name \o ".meaning") ELSE {})

InjVerdict(ev) ==
  LET e == Ids(ev.a)[1]
  IN IF ev.failed \/ ~TwoOperands(e) THEN {}
     ELSE If(\A p \in printed : p[1] = ev.txt => p[2] = e, "C11.sametext")

-----------------------------------------------------------------------------
CodeSupported(e, args) ==
  \A i \in Reach(tab, e) :
     IF IsAtom(tab[i]) THEN tab[i].ty = "Integer" \/ i \in ToSet(args)
     ELSE LET h == HeadOf(tab[i])  n == Len(tab[i].ch) - 1
          IN (h \in {ADD, MUL}) \/ (h = POW /\ n = 2) \/ (h \in {SIN, COS} /\ n = 1)

CodeVerdict(ev) ==
  LET e == Ids(ev.a)[1]
      args == Ids(ev.ps)
  IN IF ev.failed THEN If(~CodeSupported(e, args), "C13.refused")
     ELSE If(CodeSupported(e, args), "C13.accepted")
          \cup (IF ev.parsed /\ CodeSupported(e, args)
                THEN If(ReturnsValue(tab, vals, ev.code, args, e), "C13.code") ELSE {})

Dense(reg) == reg.ts
Entries(reg) ==     \* non zero entries as [i, j, id]
  FoldLeftDomain(LAMBDA acc, n : IF reg.ts[n] = ZERO THEN acc
      ELSE Append(acc, [i |-> (n - 1) \div reg.nc, j |-> (n - 1) % reg.nc, id |-> reg.ts[n]]), <<>>, reg.ts)

MCodeVerdict(ev) ==
  LET m == regs[ev.m]
      args == Ids(ev.ps)
      sup == \A n \in 1..Len(m.ts) : CodeSupported(m.ts[n], args)
  IN IF ev.failed THEN If(~sup, "C13.refused")
     ELSE If(sup, "C13.accepted")
          \cup (IF ev.parsed /\ sup
                THEN If(FillsMatrix(tab, vals, ev.code, args, m.nr, m.nc, Entries(m)), "C13.matrixcode")
                ELSE {})

-----------------------------------------------------------------------------
(* Matrices: a register holds the dense list of entries, row by row.        *)
SameShape(r, nr, nc) == r.t = "m" /\ r.nr = nr /\ r.nc = nc /\ Len(r.ts) = nr * nc

MatVerdict(ev) ==
  CASE ev.op = "mat" ->
         LET ids == Ids(ev.a)
         IN If(SameShape(ev.res, ev.nr, ev.nc) /\ ev.res.ts = ids, "C14.new")
    [] ev.op = "mragged" -> If((\E i \in 1..Len(ev.lens) : ev.lens[i] # ev.lens[1]) => ev.res.t = "x", "C14.ragged")
    [] ev.op = "madd" ->
         LET x == regs[ev.x]  y == regs[ev.y]
         IN IF x.nr # y.nr \/ x.nc # y.nc THEN If(ev.res.t = "x", "C14.addshape")
            ELSE If(/\ SameShape(ev.res, x.nr, x.nc)
                    /\ \A n \in 1..Len(x.ts) : \A k \in 1..K :
                         LET w == AddV(vals[k][x.ts[n]], vals[k][y.ts[n]])
                             g == vals[k][ev.res.ts[n]]
                         IN Agree(w, g) /\ (w.p >= 0 => g.p >= 0), "C14.add")
    [] ev.op = "mdiff" ->
         LET m == regs[ev.m]
             v == Ids(ev.a)[1]
             dep == DependsSeq(tab, v)
             off == UNION {Offending(tab, m.ts[n], dep) : n \in 1..Len(m.ts)}
             d == << DualAt(tab, vals[1], dep, v), DualAt(tab, vals[2], dep, v), DualAt(tab, vals[3], dep, v) >>
         IN IF ev.res.t = "x" THEN If(off # {}, "C14.diffrefused")
            ELSE IF off # {} THEN {}
            ELSE If(/\ SameShape(ev.res, m.nr, m.nc)
                    /\ \A n \in 1..Len(m.ts) : DerivOK(tab, vals, d, m.ts[n], ev.res.ts[n], TRUE), "C14.diff")
    [] ev.op = "mget" ->
         LET m == regs[ev.m]
             inside == ev.i \in 0..(m.nr - 1) /\ ev.j \in 0..(m.nc - 1)
         IN IF inside /\ ev.good THEN If(ev.res.t = "e" /\ ev.res.id = m.ts[ev.i * m.nc + ev.j + 1], "C14.get")
            ELSE If(ev.res.t = "x", "C14.badindex")
    [] ev.op = "mlist" ->
         LET m == regs[ev.m]
         IN If(ev.rows = [i \in 1..m.nr |-> SubSeq(m.ts, (i - 1) * m.nc + 1, i * m.nc)], "C14.list")
    [] ev.op = "mtext" ->
         LET m == regs[ev.m]
             row(i) == FoldLeft(LAMBDA acc, j : acc \o (IF j > 1 THEN ", " ELSE "") \o ev.es[(i - 1) * m.nc + j],
                                "[", [j \in 1..m.nc |-> j]) \o "]"
             all == FoldLeft(LAMBDA acc, i : acc \o (IF i > 1 THEN ", " ELSE "") \o row(i),
                             "Matrix([", [i \in 1..m.nr |-> i]) \o "])"
         IN If(Len(ev.es) = m.nr * m.nc /\ ev.txt = all, "C14.text")

-----------------------------------------------------------------------------
(* SymPy objects appear in the table in the structure SymPy gives them,     *)
(* with what has no counterpart as an atom of kind "Opaque".                *)
HasOpaque(e) == \E i \in ReachAll(tab, e) : tab[i].ty = "Opaque"

SymVerdict(ev) ==
  CASE ev.op = "tosym" ->
         LET e == Ids(ev.a)[1]
         IN IF ev.failed THEN {"C12.tosympy"}
            ELSE If(\A k \in 1..K : Agree(vals[k][ev.sid], vals[k][e])
                        /\ (vals[k][e].p >= 0 => vals[k][ev.sid].p >= 0), "C12.to")
                 \cup If(ev.lossless => ev.sid = e, "C12.toexact")
    [] ev.op = "fromsym" ->
         IF ev.supported
         THEN If(ev.res.t = "e" /\ \A k \in 1..K : Agree(vals[k][ev.sid], vals[k][ev.res.id])
                    /\ (vals[k][ev.sid].p >= 0 => vals[k][ev.res.id].p >= 0), "C12.from")
              \cup If(ev.res.t = "e" /\ ev.evaluated => ev.back = ev.sid, "C12.roundtrip")
         ELSE If(ev.res.t = "x", "C12.refuse")
    [] ev.op = "mtosym" ->
         LET m == regs[ev.m]
         IN IF ev.failed THEN {"C12.mtosympy"}
            ELSE If(ev.nr = m.nr /\ ev.nc = m.nc /\ Len(ev.ids) = Len(m.ts)
                    /\ \A n \in 1..Len(m.ts) : /\ SameMeaning(vals, ev.ids[n], m.ts[n])
                                                /\ \A k \in 1..K : vals[k][m.ts[n]].p >= 0 => vals[k][ev.ids[n]].p >= 0,
                    "C12.mto")
    [] ev.op = "mfromsym" ->
         IF ev.supported
         THEN If(ev.res.t = "m" /\ ev.res.nr = ev.nr /\ ev.res.nc = ev.nc /\ Len(ev.res.ts) = Len(ev.ids)
                 /\ \A n \in 1..Len(ev.ids) : /\ SameMeaning(vals, ev.ids[n], ev.res.ts[n])
                                               /\ \A k \in 1..K : vals[k][ev.ids[n]].p >= 0 => vals[k][ev.res.ts[n]].p >= 0,
                 "C12.mfrom")
              \cup If(ev.res.t = "m" => ev.back = ev.ids, "C12.mroundtrip")
         ELSE If(ev.res.t = "x", "C12.mrefuse")

-----------------------------------------------------------------------------
(* Numbers.  A route is a way of computing; `pt` is a point of the session. *)
NumVerdict(e, pt, route, d, name) ==
  LET w == nvals[pt][e]
  IN If(Within(d, w), name \o ".value")
     \cup If(\A m \in memo : m[1] = e /\ m[2] = pt => Same(m[4], d, w), name \o ".same")
     \cup If(\A m \in memo : m[1] = e /\ m[2] = pt /\ m[3] = route => m[4] = d, name \o ".repeat")

LamVerdict(ev) ==
  LET args == Ids(ev.ps)
      sup  == IF ev.mat = 0 THEN CodeSupported(Ids(ev.a)[1], args)
              ELSE \A n \in 1..Len(regs[ev.mat].ts) : CodeSupported(regs[ev.mat].ts[n], args)
  IN If((ev.res.t = "l") = sup, "C13.compiles")
     \cup If(ev.res.t = "l" => ev.res.ts = args /\ ev.res.id = (IF ev.mat = 0 THEN Ids(ev.a)[1] ELSE ev.mat),
              "any.lam")

CalledEntries(ev) == IF regs[ev.f].nr = 0 THEN <<regs[ev.f].id>> ELSE regs[regs[ev.f].id].ts

LcallVerdict(ev) ==
  LET es == CalledEntries(ev)
  IN IF ev.failed \/ Len(ev.ds) # Len(es) \/ ev.nr # regs[ev.f].nr \/ ev.nc # regs[ev.f].nc
     THEN {"C13.shape", "C17.shape"}
     ELSE UNION {NumVerdict(es[n], ev.pt, ev.route, ev.ds[n], "C13") : n \in 1..Len(es)}
          \cup UNION {NumVerdict(es[n], ev.pt, ev.route, ev.ds[n], "C17") : n \in 1..Len(es)}

Remembered(ev) ==
  CASE ev.op = "num" -> {<<Ids(ev.a)[1], ev.pt, ev.route, ev.d>>}
    [] ev.op = "lcall" /\ ~ev.failed /\ Len(ev.ds) = Len(CalledEntries(ev)) ->
         {<<CalledEntries(ev)[n], ev.pt, ev.route, ev.ds[n]>> : n \in 1..Len(ev.ds)}
    [] OTHER -> {}

-----------------------------------------------------------------------------
Verdict(ev) ==
  CASE ev.op = "skip" -> {}
    [] ev.op \in {"atom", "bin", "neg", "pos", "call"} -> Expect(ev, "C10." \o ev.op)
    [] ev.op = "copy" -> Expect(ev, "C01.copy")
    [] ev.op \in {"subst", "mkfun", "apply"} -> Expect(ev, "C05." \o ev.op)
    [] ev.op = "parts" ->
         LET e == Ids(ev.a)[1]
         IN If(<<ev.head>> \o ev.args = tab[e].ch /\ ev.again = e, "C10.parts")
    [] ev.op = "diff" -> DiffVerdict(ev)
    [] ev.op = "binexp" ->
         Expect(ev, "C15.expand")
         \cup (IF ev.res.t = "e"
               THEN If(AllBinary(tab, ev.res.id), "C15.binary")
                    \cup If(SameMeaning(vals, Ids(ev.a)[1], ev.res.id), "C15.value")
                    \cup If(ev.twice = ev.res.id, "C15.idempotent")
               ELSE {})
    [] ev.op = "xform" -> Expect(ev, "C15.xform")
    [] ev.op = "topo" ->
         If(IsListing(tab, Ids(ev.a)[1], ev.heads, ToSet(Ids(ev.ex)), ev.list), "C04.sort")
    [] ev.op = "split" ->
         If(IsSplit(tab, Ids(ev.a)[1], ToSet(Ids(ev.ex)), ev.atoms, ev.heads, ev.nodes), "C04.split")
    [] ev.op = "graph" ->
         If(IsGraph(tab, Ids(ev.a)[1], ev.atoms, ev.heads, ev.ops) /\ ev.again = Ids(ev.a)[1], "C04.graph")
    [] ev.op = "count" ->
         LET e == Ids(ev.a)[1]
         IN If(ev.g = Cardinality(Reach(tab, e)), "C16.graphcount")
            \cup If(\A j \in 1..Len(ev.tc) : ev.tc[j][2] = TreeCountSeq(tab, ev.tc[j][1])[e], "C16.treecount")
    [] ev.op = "text"  -> IF LegalArity(Ids(ev.a)[1]) THEN TextVerdict(ev, "C11.text") \cup InjVerdict(ev) ELSE {}
    [] ev.op = "latex" -> IF LegalArity(Ids(ev.a)[1]) THEN TextVerdict(ev, "C11.latex") ELSE {}
    [] ev.op = "code"  -> CodeVerdict(ev)
    [] ev.op = "mcode" -> MCodeVerdict(ev)
    [] ev.op \in {"mat", "mragged", "madd", "mdiff", "mget", "mlist", "mtext"} -> MatVerdict(ev)
    [] ev.op \in {"tosym", "fromsym", "mtosym", "mfromsym"} -> SymVerdict(ev)
    [] ev.op = "num" -> NumVerdict(Ids(ev.a)[1], ev.pt, ev.route, ev.d, "C17")
    [] ev.op = "lam" -> LamVerdict(ev)
    [] ev.op = "lcall" -> LcallVerdict(ev)
    [] ev.op = "arrays" ->      \* results of earlier calls, read again
         If(\A j \in 1..Len(ev.held) : ev.held[j].ds = Sessions[s].ev[ev.held[j].n].ds, "C13.storage")
    [] ev.op = "frame" -> If(\A j \in 1..Len(ev.held) : ev.held[j].reg = regs[ev.held[j].r], "any.frame")
    [] ev.op = "crash" -> {"any.crash"}
    [] ev.op = "timeout" -> {"any.timeout"}
    [] ev.op = "error" -> {ev.clause}
    [] OTHER -> {"any.unknown"}

-----------------------------------------------------------------------------
Init ==
  /\ s \in 1..Len(Sessions)
  /\ l = 0
  /\ tab = <<>> /\ vals = <<>> /\ regs = <<>> /\ printed = {} /\ bad = {}
  /\ nvals = <<>> /\ memo = {}

Load ==
  /\ l = 0
  /\ tab' = Sessions[s].tab
  /\ vals' = IF Sessions[s].needvals THEN Values(tab') ELSE <<>>
  /\ nvals' = SeqMap(LAMBDA pt : ApproxValues(tab', pt), Sessions[s].pts)
  /\ bad' = IF WellFormed(tab') THEN {} ELSE {<<0, "any.table">>}
  /\ l' = 1
  /\ UNCHANGED <<s, regs, printed, memo>>

Event ==
  /\ l > 0 /\ l <= Len(Sessions[s].ev)
  /\ LET ev == Sessions[s].ev[l]
     IN /\ bad' = bad \cup {<<l, c>> : c \in Verdict(ev)}
        /\ regs' = IF ev.res.t = "-" THEN regs ELSE Append(regs, ev.res)
        /\ printed' = IF ev.op = "text" /\ ~ev.failed /\ TwoOperands(Ids(ev.a)[1])
                      THEN printed \cup {<<ev.txt, Ids(ev.a)[1]>>} ELSE printed
        /\ memo' = memo \cup Remembered(ev)
  /\ l' = l + 1
  /\ UNCHANGED <<s, tab, vals, nvals>>

Done ==
  /\ l > 0 /\ l > Len(Sessions[s].ev)
  /\ l' = -1
  /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
  /\ UNCHANGED <<s, tab, vals, regs, printed, bad, nvals, memo>>

Next == Load \/ Event \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
