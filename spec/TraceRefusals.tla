---------------------------- MODULE TraceRefusals ----------------------------
(* A script done without (run 1) and with (run 2) its requests that are     *)
(* marked "ask".  Requests that are not supported give the documented       *)
(* error; everything else gives in run 2 what it gave in run 1.             *)
EXTENDS Requests

VARIABLES run, alone
rvars == <<s, l, tab, vals, regs, printed, bad, nvals, memo, run, alone>>
RView == <<s, l, run, bad>>

Ev(r, n) == Sessions[s].runs[r][n]
Count == Len(Sessions[s].ev)

(* The parts of a recorded result that are fixed by the request             *)
SameResult(x, y) ==
  /\ x.op = y.op /\ x.res = y.res
  /\ CASE x.op = "twin" -> x.got = y.got
       [] x.op \in {"text", "latex"} -> x.txt = y.txt /\ x.failed = y.failed
       [] x.op = "mtext" -> x.txt = y.txt
       [] x.op \in {"code", "mcode"} -> x.failed = y.failed
       [] x.op = "tosym" -> x.failed = y.failed /\ x.sid = y.sid
       [] OTHER -> TRUE

RInit == Init /\ run = 1 /\ alone = {}
RLoad == Load /\ UNCHANGED <<run, alone>>

REvent ==
  /\ l > 0 /\ l <= Count
  /\ LET ev == Ev(run, l)
         v  == IF ev.ask /\ ev.op # "skip" THEN AskVerdict(ev)
               ELSE IF ev.op = "twin" THEN {} ELSE Verdict(ev)
     IN /\ bad' = IF run = 1 THEN bad
                  ELSE bad \cup {<<l, IF ev.ask THEN c ELSE "C19." \o c>> : c \in {d \in v : ev.ask \/ <<l, d>> \notin alone}}
                           \cup {<<l, c>> : c \in If(ev.ask \/ SameResult(Ev(1, l), ev), "C19.same")}
        /\ alone' = IF run = 1 THEN alone \cup {<<l, d>> : d \in v} ELSE alone
        /\ regs' = IF ev.res.t = "-" THEN regs ELSE Append(regs, ev.res)
        /\ printed' = printed
        /\ memo' = memo \cup (IF ev.ask \/ ev.op = "twin" THEN {} ELSE Remembered(ev))
  /\ l' = l + 1
  /\ UNCHANGED <<s, tab, vals, nvals, run>>

Again ==
  /\ l > Count /\ run = 1
  /\ run' = 2 /\ l' = 1 /\ regs' = <<>>
  /\ UNCHANGED <<s, tab, vals, printed, bad, nvals, memo, alone>>

RDone ==
  /\ l > 0 /\ l > Count /\ run = 2
  /\ l' = -1
  /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
  /\ UNCHANGED <<s, tab, vals, regs, printed, bad, nvals, memo, run, alone>>

RNext == RLoad \/ REvent \/ Again \/ RDone
RSpec == RInit /\ [][RNext]_rvars
=============================================================================
