---------------------------- MODULE DecompMonitor ----------------------------
(***************************************************************************)
(* What a user of a decompression stream can observe; see CompMonitor.     *)
(*   start                  an operation                                   *)
(*   push(o) pushe(o, ok)   a block is pushed; accepted or refused         *)
(*   beg(o) end(o, ok)      a call of the implementation for block o       *)
(*   settled                every worker waits                             *)
(*   fin(cancel) fine(cancel) done(success, good) dtor dtore exit stuck    *)
(* good is decided where the contents are known (StreamTrace).             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

MaxThread == 12
M0(n) == [n |-> n, op |-> 0, phase |-> "idle", pend |-> {}, acc |-> {}, refused |-> {}, begun |-> {}, ended |-> {}, failblk |-> {},
          busy |-> {}, failed |-> {}, fail |-> FALSE, settledfail |-> FALSE,
          want |-> FALSE, cancel |-> FALSE, finop |-> [t \in 0..MaxThread |-> 0], late |-> {},
          gone |-> 0, exits |-> {}, bad |-> {}]

When(c, s) == IF c THEN {s} ELSE {}
Flag(m, S) == [m EXCEPT !.bad = @ \cup S]

Step(m, e) ==
  LET k == e[1]  t == e[2]  a == e[3]  b == e[4] IN
  CASE k = "start" ->
         [m EXCEPT !.op = @ + 1, !.phase = "run", !.pend = {}, !.acc = {}, !.refused = {}, !.begun = {}, !.ended = {}, !.failblk = {},
                   !.failed = {}, !.fail = FALSE, !.settledfail = FALSE, !.want = FALSE, !.cancel = FALSE, !.late = {}]
    [] k = "push" -> [m EXCEPT !.pend = @ \cup {a}]
    [] k = "pushe" ->
         [m EXCEPT !.pend = @ \ {a}, !.acc = IF b = 1 THEN @ \cup {a} ELSE @, !.refused = IF b = 0 THEN @ \cup {a} ELSE @,
                   !.bad = @ \cup When(b = 0 /\ ~m.fail, "refused") \cup When(b = 1 /\ m.settledfail, "accepted")]
    [] k = "settled" -> [m EXCEPT !.settledfail = m.fail]
    [] k = "beg" ->
         LET f == When(m.phase = "idle", "stray") \cup When(a \notin m.pend \cup m.acc, "args") \cup When(a \in m.begun, "twice")
                  \cup When(m.cancel /\ t \in m.late, "late")
                  \cup When(t \in m.failed \/ m.settledfail, "goeson")
                  \cup When(m.gone = 2, "after")
         IN [m EXCEPT !.bad = @ \cup f, !.begun = @ \cup {a}, !.busy = @ \cup {t}, !.late = IF m.cancel THEN @ \cup {t} ELSE @]
    [] k = "end" ->
         [m EXCEPT !.busy = @ \ {t}, !.ended = @ \cup {a}, !.fail = @ \/ b = 0, !.failed = IF b = 0 THEN @ \cup {t} ELSE @,
                   !.failblk = IF b = 0 THEN @ \cup {a} ELSE @]
    [] k = "fin" -> [m EXCEPT !.phase = "fin", !.want = (a = 1), !.finop[t] = m.op]
    [] k = "fine" -> [m EXCEPT !.cancel = IF m.finop[t] = m.op /\ m.phase = "fin" THEN (a = 1) ELSE @]
    [] k = "done" ->
         LET f == When(m.phase # "fin", "unasked") \cup When(m.gone = 2, "after")
                  \cup When(m.busy # {}, "early")
                  \cup When(m.fail /\ a = 1, "unreported") \cup When(~m.fail /\ a = 0, "falsefailure")
                  \cup When(b # 1, "content")
         IN [m EXCEPT !.bad = @ \cup f, !.phase = "idle", !.cancel = FALSE]
    [] k = "dtor" -> [m EXCEPT !.gone = 1]
    [] k = "dtore" -> [m EXCEPT !.gone = 2, !.bad = @ \cup When(~((1..m.n) \subseteq m.exits) \/ m.busy # {}, "alive")]
    [] k = "exit" -> [m EXCEPT !.exits = @ \cup {t}]
    \* construction fails as its (b+1)-st thread cannot be created: with an exception, and the others have ended
    [] k = "refused" -> Flag(m, When(a # 1, "silent") \cup When(~(1..b \subseteq m.exits), "alive"))
    [] k = "stuck" -> Flag(m, {"stuck"})
    [] k = "final" -> Flag(m, When(b # 1, "latewrite"))
    [] OTHER -> m

(* C10 *)
RestoredInPlace(m) == m.bad \cap {"stray", "args", "twice", "early", "content", "refused", "unasked", "latewrite", "falsefailure", "stuck"} = {}
(* C11 *)
FailuresReported(m) == m.bad \cap {"unreported", "falsefailure", "refused", "accepted", "goeson", "unasked", "stuck"} = {}
(* C12 *)
Terminates(m) == m.bad \cap {"stuck", "after", "alive", "silent", "late", "unasked", "early"} = {}
=============================================================================
