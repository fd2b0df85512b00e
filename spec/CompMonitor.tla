----------------------------- MODULE CompMonitor -----------------------------
(***************************************************************************)
(* What a user of a compression stream can observe, and what must never be *)
(* observed.  The monitor consumes events one at a time; both the design   *)
(* (CompStream.tla, explored exhaustively) and the recorded executions of  *)
(* the real code (StreamTrace.tla) feed it.                                *)
(*                                                                         *)
(* Events <<kind, thread, a, b, c>>; thread 0 is the user, 1..n workers:   *)
(*   start(nb, ep)  an operation on nb whole blocks, ep blocks per epoch   *)
(*   beg(o) end(o, ok)      a call of the implementation for block o       *)
(*   cb(o, err, good) cbe(o)  the block callback is invoked, returns       *)
(*   fin(cancel) fine(cancel)   finalize is called, returns                *)
(*   done(success)          the completion callback                        *)
(*   dtor dtore exit        destruction begins, has ended; a thread ends   *)
(*   changed stuck          a block lost its contents; nobody can move     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

MaxThread == 12
M0(n) == [n |-> n, op |-> 0, phase |-> "idle", nb |-> 0, ep |-> 0,
          begun |-> {}, okd |-> {}, given |-> {}, back |-> {},
          cur |-> [t \in 0..MaxThread |-> -1],     \* the block a thread was last given
          incall |-> {}, incb |-> {}, failed |-> {}, fail |-> FALSE,
          want |-> FALSE,            \* cancellation asked for
          cancel |-> FALSE,          \* ... and in effect
          finop |-> [t \in 0..MaxThread |-> 0],
          late |-> {}, errback |-> FALSE, errlate |-> {},
          gone |-> 0, exits |-> {}, bad |-> {}]

When(c, s) == IF c THEN {s} ELSE {}
Flag(m, S) == [m EXCEPT !.bad = @ \cup S]

Step(m, e) ==
  LET k == e[1]  t == e[2]  a == e[3]  b == e[4]  c == e[5] IN
  CASE k = "start" ->
         [m EXCEPT !.op = @ + 1, !.phase = "run", !.nb = a, !.ep = b, !.begun = {}, !.okd = {}, !.given = {}, !.back = {},
                   !.failed = {}, !.fail = FALSE, !.want = FALSE, !.cancel = FALSE, !.late = {}, !.errback = FALSE, !.errlate = {},
                   !.cur = [x \in 0..MaxThread |-> -1]]
    [] k = "beg" ->
         LET f == When(m.phase = "idle", "stray") \cup When(a < 0 \/ a >= m.nb, "args") \cup When(a \in m.begun, "twice")
                  \cup When(m.cancel /\ t \in m.late, "late")
                  \cup When(t \in m.failed \/ (m.errback /\ t \in m.errlate), "goeson")
                  \cup When(m.gone = 2, "after")
         IN [m EXCEPT !.bad = @ \cup f, !.begun = @ \cup {a}, !.cur[t] = a, !.incall = @ \cup {t},
                      !.late = IF m.cancel THEN @ \cup {t} ELSE @, !.errlate = IF m.errback THEN @ \cup {t} ELSE @]
    [] k = "end" ->
         [m EXCEPT !.incall = @ \ {t}, !.okd = IF b = 1 THEN @ \cup {a} ELSE @, !.fail = @ \/ b = 0,
                   !.failed = IF b = 0 THEN @ \cup {t} ELSE @]
    [] k = "cb" ->
         LET o == IF b = 1 THEN m.cur[t] ELSE a
             f == When(m.phase = "idle", "stray") \cup When(m.gone = 2, "after")
                  \cup (IF b = 1 THEN When(t \notin m.failed, "spurious")
                        ELSE When(a < 0 \/ a >= m.nb, "offset") \cup When(a >= 0 /\ a < m.nb /\ a \notin m.okd, "unprocessed") \cup When(c # 1, "content"))
                  \cup When(o \in m.given, "dup")
                  \cup When(m.ep > 0 /\ o > 0 /\ o < m.nb /\ \E x \in 0..((o \div m.ep) * m.ep - 1) : x \notin m.back, "epoch")
         IN [m EXCEPT !.bad = @ \cup f, !.given = @ \cup {o}, !.incb = @ \cup {t}, !.cur[t] = o]
    [] k = "cbe" ->
         [m EXCEPT !.incb = @ \ {t}, !.back = @ \cup {m.cur[t]}, !.errback = @ \/ t \in m.failed]
    [] k = "fin" ->
         [m EXCEPT !.phase = "fin", !.want = (a = 1), !.finop[t] = m.op]
    [] k = "fine" ->
         [m EXCEPT !.cancel = IF m.finop[t] = m.op /\ m.phase = "fin" THEN (a = 1) ELSE @]
    [] k = "done" ->
         LET f == When(m.phase # "fin", "unasked") \cup When(m.gone = 2, "after")
                  \cup When(m.incall # {} \/ m.incb # {}, "early")
                  \cup When(m.fail /\ a = 1, "unreported") \cup When(~m.fail /\ a = 0, "falsefailure")
                  \cup When(~m.fail /\ ~m.want /\ m.back # 0..(m.nb - 1), "missing")
         IN [m EXCEPT !.bad = @ \cup f, !.phase = "idle", !.cancel = FALSE]
    [] k = "dtor" -> [m EXCEPT !.gone = 1]
    [] k = "dtore" -> [m EXCEPT !.gone = 2, !.bad = @ \cup When(~((1..m.n) \subseteq m.exits), "alive")
                                                     \cup When(m.incall # {} \/ m.incb # {}, "alive")]
    [] k = "exit" -> [m EXCEPT !.exits = @ \cup {t}]
    [] k = "changed" -> Flag(m, {"changed"})
    \* construction fails as its (b+1)-st thread cannot be created: with an exception, and the others have ended
    [] k = "refused" -> Flag(m, When(a # 1, "silent") \cup When(~(1..b \subseteq m.exits), "alive"))
    [] k = "stuck" -> Flag(m, {"stuck"})
    [] OTHER -> m

(* C08: every whole block exactly once, with its contents; then completion, exactly once, with success *)
OnceThenDone(m) == m.bad \cap {"stray", "args", "twice", "dup", "offset", "unprocessed", "content", "changed",
                               "early", "missing", "unasked", "falsefailure", "stuck"} = {}
(* C09: epochs *)
EpochOrder(m) == m.bad \cap {"epoch", "stuck"} = {}
(* C11: failures are reported, and nothing else is *)
FailuresReported(m) == m.bad \cap {"unreported", "falsefailure", "spurious", "goeson", "unasked", "stuck"} = {}
(* C12: termination *)
Terminates(m) == m.bad \cap {"stuck", "after", "alive", "silent", "late", "unasked", "early"} = {}
=============================================================================
