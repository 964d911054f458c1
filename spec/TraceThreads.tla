---------------------------- MODULE TraceThreads ----------------------------
(* Executions of several threads.  A session has operations done before the *)
(* threads start and the operations of the threads, done one at a time (ev) *)
(* and then in many interleavings (runs).  Every operation of a run has to  *)
(* give what Session.tla says, unless it also fails when done on its own;   *)
(* and at all times there is one object for one structure among what is     *)
(* held, whichever thread holds it.                                         *)
EXTENDS TraceSession

VARIABLES run,      \* 0: one at a time
          reg0,     \* registers when the threads start
          alone     \* what fails when done one at a time
tvars == <<s, l, tab, vals, regs, printed, bad, nvals, memo, run, reg0, alone>>
TView == <<s, l, run, bad>>

Ev(r, n) == IF r = 0 THEN Sessions[s].ev[n] ELSE Sessions[s].runs[r].ev[n - Sessions[s].nset]
Count == Len(Sessions[s].ev)
Runs  == Len(Sessions[s].runs)
NSet  == Sessions[s].nset

(* The objects held: those got and not dropped.                             *)
Held(r) ==
  FoldLeft(LAMBDA acc, h :
      IF h.do = "drop" THEN [acc EXCEPT !.held = {x \in @ : x.r # h.r}]
      ELSE [ok |-> acc.ok /\ \A x \in acc.held : (x.id = h.id) = (x.o = h.o),
            held |-> acc.held \cup {h}],
      [ok |-> TRUE, held |-> {}], Sessions[s].runs[r].hist)

OneEach(r) == LET A == Sessions[s].runs[r].parts
              IN \A i, j \in 1..Len(A) : A[i].k = A[j].k => (A[i].id = A[j].id) = (A[i].o = A[j].o)

Objects(r) == If(Held(r).ok, "C02.object") \cup If(OneEach(r), "C02.parts") \cup If(Sessions[s].runs[r].ok, "C02.finish")

TInit == Init /\ run = 0 /\ reg0 = <<>> /\ alone = {}

TLoad == Load /\ UNCHANGED <<run, reg0, alone>>

TEvent ==
  /\ l > 0 /\ l <= Count
  /\ LET ev == Ev(run, l)
         v  == IF ev.op = "timeout" THEN {"timeout"} ELSE Verdict(ev)
     IN /\ bad' = IF run = 0 THEN bad ELSE bad \cup {<<1000 * run + l, "C02." \o c>> : c \in {d \in v : <<l, d>> \notin alone}}
        /\ alone' = IF run = 0 THEN alone \cup {<<l, d>> : d \in v} ELSE alone
        /\ regs' = IF ev.res.t = "-" THEN regs ELSE Append(regs, ev.res)
        /\ printed' = IF ev.op = "text" /\ ~ev.failed /\ TwoOperands(Ids(ev.a)[1])
                      THEN printed \cup {<<ev.txt, Ids(ev.a)[1]>>} ELSE printed
        /\ memo' = memo \cup Remembered(ev)
        /\ reg0' = IF run = 0 /\ l = NSet THEN regs' ELSE reg0
  /\ l' = l + 1
  /\ UNCHANGED <<s, tab, vals, nvals, run>>

NextRun ==
  /\ l > Count /\ run < Runs
  /\ run' = run + 1
  /\ bad' = bad \cup {<<1000 * run', c>> : c \in
        {d \in Objects(run') : run' > 1 /\ <<0, d>> \notin alone}}
  /\ alone' = IF run' = 1 THEN alone \cup {<<0, d>> : d \in Objects(1)} ELSE alone
  /\ l' = NSet + 1
  /\ regs' = reg0 /\ memo' = {} /\ printed' = {}
  /\ UNCHANGED <<s, tab, vals, nvals, reg0>>

TDone ==
  /\ l > 0 /\ l > Count /\ run = Runs
  /\ l' = -1
  /\ PrintT(ToJson([verdict |-> s, bad |-> bad]))
  /\ UNCHANGED <<s, tab, vals, regs, printed, bad, nvals, memo, run, reg0, alone>>

TNext == TLoad \/ TEvent \/ NextRun \/ TDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
