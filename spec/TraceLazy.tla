------------------------------ MODULE TraceLazy ------------------------------
(* The same operations in new processes with different optional packages.   *)
(* Nothing is imported that no operation so far needed; what needs a missing *)
(* package says so; everything else does what Session.tla says, unless it    *)
(* does not either with everything installed (run 1).                        *)
EXTENDS Requests

VARIABLES run, asked, alone
lvars == <<s, l, tab, vals, regs, printed, bad, nvals, memo, run, asked, alone>>
LView == <<s, l, run, bad>>

R       == Sessions[s].runs[run]
Brings(p) == {p} \cup ToSet(Sessions[s].brings[p])      \* what the package itself imports

Needs(ev) ==
  CASE ev.does \in {"tosym", "fromsym", "mtosym", "mfromsym"} -> {"sympy"}
    [] ev.does = "lam" -> {"llvmlite"}
    [] ev.does = "mlam" -> {"llvmlite", "numpy"}
    [] OTHER -> {}

(* What the user gets is the same whatever else is installed or loaded.       *)
Got(ev) ==
  CASE ev.op = "text"  -> [t |-> ev.txt]
    [] ev.op = "latex" -> [t |-> ev.txt]
    [] ev.op = "mtext" -> [t |-> ev.txt]
    [] ev.op = "count" -> [g |-> ev.g, c |-> ev.tc]
    [] OTHER -> [t |-> ev.op]
Differs(ev) ==
  LET one == Sessions[s].runs[1].ev[l]
  IN /\ run > 1 /\ l <= Len(Sessions[s].runs[1].ev)
     /\ ev.op = one.op /\ "err" \notin DOMAIN ev /\ "err" \notin DOMAIN one
     /\ Got(ev) # Got(one)

LInit == Init /\ run = 0 /\ asked = {} /\ alone = {}

LLoad == Load /\ run' = 0 /\ UNCHANGED <<asked, alone>>

Start ==
  /\ l > 0 /\ run < Len(Sessions[s].runs) /\ (IF run = 0 THEN TRUE ELSE l > Len(R.ev))
  /\ run' = run + 1 /\ l' = 1
  /\ asked' = {} /\ regs' = <<>> /\ memo' = {} /\ printed' = {}
  /\ UNCHANGED <<s, tab, vals, bad, nvals, alone>>

LEvent ==
  /\ l > 0 /\ run > 0 /\ l <= Len(R.ev)
  /\ LET ev == R.ev[l]
         now == asked \cup UNION {Brings(p) : p \in Needs(ev)}
         can == Needs(ev) \subseteq ToSet(R.has)
         v   == IF ~can THEN {} ELSE IF ev.ask THEN AskVerdict(ev) ELSE Verdict(ev)
     IN /\ asked' = now
        /\ alone' = IF run = 1 THEN alone \cup {<<l, c>> : c \in v} ELSE alone
        /\ bad' = bad
             \cup {<<1000 * run + l, c>> : c \in
                     If(ToSet(ev.loaded) \subseteq now, "C18.loaded")
                     \cup If(can \/ ev.missing \/ (ev.lenient /\ ev.refused), "C18.missing")
                     \cup If(can => ~ev.missing, "C18.works")
                     \cup If(~(can /\ Differs(ev)), "C18.differs")}
             \cup (IF run = 1 THEN {} ELSE {<<1000 * run + l, "C18." \o c>> : c \in {d \in v : <<l, d>> \notin alone}})
        /\ regs' = IF ev.res.t = "-" THEN regs ELSE Append(regs, ev.res)
        /\ printed' = printed
        /\ memo' = memo \cup (IF can /\ ~ev.ask THEN Remembered(ev) ELSE {})
  /\ l' = l + 1
  /\ UNCHANGED <<s, tab, vals, nvals, run>>

LDone ==
  /\ l > 0 /\ run = Len(Sessions[s].runs) /\ (IF run = 0 THEN TRUE ELSE l > Len(R.ev))
  /\ l' = -1
  /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
  /\ UNCHANGED <<s, tab, vals, regs, printed, bad, nvals, memo, run, asked, alone>>

LNext == LLoad \/ Start \/ LEvent \/ LDone
LSpec == LInit /\ [][LNext]_lvars
=============================================================================
