------------------------------ MODULE CompStream ------------------------------
(***************************************************************************)
(* The design of the compression stream: N worker threads, one user.  Each *)
(* action is one critical section, one atomic access or one unprotected    *)
(* access of the implementation; condition variables and the barrier are   *)
(* modelled with their sleepers, so a lost wake-up is a deadlock.          *)
(*                                                                         *)
(*   Spec   explored exhaustively: every script in Scripts, every schedule *)
(*   GSpec  generates behaviours, replayed into the real class             *)
(* Every action reports what the user observes of it to CompMonitor.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, CompMonitor

CONSTANTS N,          \* worker threads
          EP,         \* blocks per epoch, 0: no ordering
          MaxNb,      \* largest operation, in blocks
          MaxOps, MaxFails,
          Spurious,   \* whether sleeping threads can wake up for no reason
          Logging

Workers == 1..N
Leader == 1
BIG == 1000
(* An operation: blocks, failing blocks, how it ends, where it is started.  *)
(*   how: "fin" / "cancel": finalized and waited for; "nofin": destroyed    *)
(*   before it is finalized; "nowait"/"cancelnowait": destroyed afterwards  *)
(*   cb: started and finalized in the completion callback of the former one *)
OpSet == [nb : 0..MaxNb, fails : {F \in SUBSET (0..MaxNb-1) : Cardinality(F) <= MaxFails},
          how : {"fin", "cancel", "nofin", "nowait", "cancelnowait"}, cb : BOOLEAN]
OkOp(o) == o.fails \subseteq 0..(o.nb - 1)
Waits(o) == o.how \in {"fin", "cancel"}
Scripts == {s \in UNION {[1..k -> {o \in OpSet : OkOp(o)}] : k \in 1..MaxOps} :
              /\ \A i \in 1..Len(s) - 1 : Waits(s[i])
              /\ ~s[1].cb
              /\ \A i \in 2..Len(s) : s[i].cb => Waits(s[i])}

VARIABLES script, opi,                           \* the user's intentions; operations started so far
          trig, quit, cur, size, err, finz, cbset,  \* the stream
          bcount, bgen, bint,                    \* its barrier
          pc, lastt, off, lastoff, lv, rounds, gen, sleep,  \* the workers
          upc, upto, nowcb, doneops, prog,       \* the user; operation whose completion it waits for; what the leader's callback does
          m, log
stream == <<trig, quit, cur, size, err, finz, cbset>>
bar == <<bcount, bgen, bint>>
work == <<pc, lastt, off, lastoff, lv, rounds, gen, sleep>>
user == <<script, opi, upc, upto, nowcb, doneops, prog>>
vars == <<script, opi, trig, quit, cur, size, err, finz, cbset, bcount, bgen, bint, pc, lastt, off, lastoff, lv, rounds, gen, sleep,
          upc, upto, nowcb, doneops, prog, m, log>>

Emit(e, what) == m' = Step(m, e) /\ log' = IF Logging THEN Append(log, what) ELSE log
Silent == UNCHANGED <<m, log>>
S(k, x) == k \o ":" \o ToString(x)

Init0 == /\ opi = 0 /\ trig = 0 /\ quit = FALSE /\ cur = 0 /\ size = 0 /\ err = FALSE /\ finz = FALSE /\ cbset = FALSE
         /\ bcount = 0 /\ bgen = 0 /\ bint = FALSE
         /\ pc = [w \in Workers |-> "loop"] /\ lastt = [w \in Workers |-> 0] /\ off = [w \in Workers |-> 0]
         /\ lastoff = [w \in Workers |-> 0] /\ lv = [w \in Workers |-> 0] /\ rounds = [w \in Workers |-> 0]
         /\ gen = [w \in Workers |-> 0] /\ sleep = [w \in Workers |-> ""]
         /\ upc = "next" /\ upto = 0 /\ nowcb = FALSE /\ doneops = 0 /\ prog = ""
         /\ m = M0(N) /\ log = <<>>
Init == script \in Scripts /\ Init0

(* ---------------------------------------------------------------- workers *)
Goto(w, l) == pc' = [pc EXCEPT ![w] = l]
(* a notification: those asleep there run again (and test their condition) *)
Notify(q) == sleep' = [x \in Workers |-> IF sleep[x] = q THEN "" ELSE sleep[x]]
Sleep(w, q) == sleep' = [sleep EXCEPT ![w] = q]

Loop(w) == /\ pc[w] = "loop" /\ IF quit THEN Goto(w, "exit") ELSE Goto(w, "trig")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Trig(w) == /\ pc[w] = "trig" /\ sleep[w] = ""
           /\ IF trig # lastt[w] \/ quit
              THEN lastt' = [lastt EXCEPT ![w] = trig] /\ Goto(w, "size") /\ UNCHANGED sleep
              ELSE Sleep(w, "trig") /\ UNCHANGED <<pc, lastt>>
           /\ Silent /\ UNCHANGED <<stream, bar, user, off, lastoff, lv, rounds, gen>>
Size(w) == /\ pc[w] = "size" /\ lv' = [lv EXCEPT ![w] = size] /\ lastoff' = [lastoff EXCEPT ![w] = 0] /\ Goto(w, "grab")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, rounds, gen, sleep>>
Min(a, b) == IF a < b THEN a ELSE b
Grab(w) == /\ pc[w] = "grab" /\ off' = [off EXCEPT ![w] = cur] /\ cur' = IF cur >= BIG THEN BIG ELSE cur + 1
           /\ Goto(w, "epoch")
           /\ Silent /\ UNCHANGED <<trig, quit, size, err, finz, cbset, bar, user, lastt, lastoff, lv, rounds, gen, sleep>>
Epoch(w) == /\ pc[w] = "epoch"
            /\ LET r == IF EP = 0 THEN 0 ELSE (Min(off[w], size) \div EP) - (lastoff[w] \div EP) IN
               rounds' = [rounds EXCEPT ![w] = r] /\ Goto(w, IF r > 0 THEN "round" ELSE "have")
            /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, gen, sleep>>
(* arriving at the barrier; the last one opens it *)
Arrive(w, wait, after) ==
  /\ IF bcount + 1 = N
     THEN /\ bcount' = 0 /\ bgen' = bgen + 1 /\ Notify("bar") /\ Goto(w, after) /\ UNCHANGED gen
     ELSE /\ bcount' = bcount + 1 /\ gen' = [gen EXCEPT ![w] = bgen] /\ Goto(w, wait) /\ UNCHANGED <<sleep, bgen>>
  /\ UNCHANGED bint
Pass(w, after) == /\ sleep[w] = ""
                  /\ IF bgen # gen[w] \/ bint THEN Goto(w, after) /\ UNCHANGED sleep ELSE Sleep(w, "bar") /\ UNCHANGED pc
Round(w) == /\ pc[w] = "round" /\ Arrive(w, "roundW", "rounded")
            /\ Silent /\ UNCHANGED <<stream, user, lastt, off, lastoff, lv, rounds>>
RoundW(w) == /\ pc[w] = "roundW" /\ Pass(w, "rounded")
             /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen>>
Rounded(w) == /\ pc[w] = "rounded" /\ rounds' = [rounds EXCEPT ![w] = @ - 1]
              /\ Goto(w, IF rounds[w] > 1 THEN "round" ELSE IF quit THEN "wait" ELSE "have")
              /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, gen, sleep>>
Have(w) == /\ pc[w] = "have" /\ lastoff' = [lastoff EXCEPT ![w] = off[w]]
           /\ Goto(w, IF off[w] >= lv[w] THEN "wait" ELSE "call")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lv, rounds, gen, sleep>>
Fails(o) == o \in script[opi].fails
Call(w) == /\ pc[w] = "call" /\ Goto(w, "called") /\ Emit(<<"beg", w, off[w], 0, 0>>, S("beg", off[w]))
           /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Called(w) == /\ pc[w] = "called" /\ Goto(w, IF Fails(off[w]) THEN "fail" ELSE "cb")
             /\ Emit(<<"end", w, off[w], IF Fails(off[w]) THEN 0 ELSE 1, 0>>, S("end", off[w]))
             /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Fail(w) == /\ pc[w] = "fail" /\ err' = TRUE /\ cur' = BIG /\ Goto(w, "cb")
           /\ Silent /\ UNCHANGED <<trig, quit, size, finz, cbset, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Cb(w) == /\ pc[w] = "cb" /\ Goto(w, "cbe")
         /\ LET f == Fails(off[w]) IN Emit(<<"cb", w, IF f THEN -1 ELSE off[w], IF f THEN 1 ELSE 0, 1>>, S("cb", IF f THEN -1 ELSE off[w]))
         /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Cbe(w) == /\ pc[w] = "cbe" /\ Goto(w, "grab")
          /\ LET f == Fails(off[w]) IN Emit(<<"cbe", w, IF f THEN -1 ELSE off[w], 0, 0>>, S("cbe", IF f THEN -1 ELSE off[w]))
          /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Wait(w) == /\ pc[w] = "wait" /\ sleep[w] = ""
           /\ IF finz \/ quit THEN Goto(w, "bar") /\ UNCHANGED sleep ELSE Sleep(w, "trig") /\ UNCHANGED pc
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen>>
Bar(w) == /\ pc[w] = "bar" /\ Arrive(w, "barW", IF w = Leader THEN "lead" ELSE "loop")
          /\ Silent /\ UNCHANGED <<stream, user, lastt, off, lastoff, lv, rounds>>
BarW(w) == /\ pc[w] = "barW" /\ Pass(w, IF w = Leader THEN "lead" ELSE "loop")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen>>
Lead == /\ pc[Leader] = "lead"
        /\ IF quit THEN Goto(Leader, "loop") /\ UNCHANGED stream /\ Silent
           ELSE /\ size' = 0 /\ cur' = 0 /\ err' = FALSE /\ finz' = FALSE /\ cbset' = FALSE
                /\ UNCHANGED <<trig, quit>>
                /\ Goto(Leader, IF err THEN "done0" ELSE "done1") /\ Silent
        /\ UNCHANGED <<bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
(* the completion callback; it may start the next operation *)
Done == /\ pc[Leader] \in {"done0", "done1"}
        /\ LET s == IF pc[Leader] = "done1" THEN 1 ELSE 0 IN Emit(<<"done", Leader, s, 0, 0>>, S("done", s))
        /\ LET nest == opi < Len(script) /\ script[opi + 1].cb IN
           Goto(Leader, IF nest THEN "nstart" ELSE "donee")
        /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
NStart == /\ pc[Leader] = "nstart" /\ opi' = opi + 1 /\ size' = script[opi + 1].nb
          /\ Goto(Leader, "ntrig") /\ Emit(<<"start", Leader, script[opi + 1].nb, EP, 0>>, "start")
          /\ UNCHANGED <<trig, quit, cur, err, finz, cbset, bar, script, upc, upto, nowcb, doneops, prog, lastt, off, lastoff, lv, rounds, gen, sleep>>
NTrig == /\ pc[Leader] = "ntrig" /\ trig' = trig + 1 /\ Notify("trig") /\ Goto(Leader, "nfin0") /\ Silent
         /\ UNCHANGED <<quit, cur, size, err, finz, cbset, bar, user, lastt, off, lastoff, lv, rounds, gen>>
Cancels(o) == o.how \in {"cancel", "cancelnowait"}
CN(o) == IF Cancels(o) THEN 1 ELSE 0
NFin0 == /\ pc[Leader] = "nfin0" /\ Goto(Leader, "nfin") /\ Emit(<<"fin", Leader, CN(script[opi]), 0, 0>>, S("fin", CN(script[opi])))
         /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
NFin == /\ pc[Leader] = "nfin" /\ finz' = TRUE /\ cbset' = TRUE /\ Notify("trig")
        /\ cur' = IF Cancels(script[opi]) THEN BIG ELSE cur
        /\ Goto(Leader, "nfine") /\ Silent
        /\ UNCHANGED <<trig, quit, size, err, bar, user, lastt, off, lastoff, lv, rounds, gen>>
NFine == /\ pc[Leader] = "nfine" /\ Goto(Leader, "donee") /\ Emit(<<"fine", Leader, CN(script[opi]), 0, 0>>, "fine")
         /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Donee == /\ pc[Leader] = "donee" /\ Goto(Leader, "loop") /\ doneops' = doneops + 1 /\ Silent
         /\ UNCHANGED <<stream, bar, script, opi, upc, upto, nowcb, prog, lastt, off, lastoff, lv, rounds, gen, sleep>>
Exit(w) == /\ pc[w] = "exit" /\ Goto(w, "gone") /\ Emit(<<"exit", w, 0, 0, 0>>, "exit")
           /\ UNCHANGED <<stream, bar, user, lastt, off, lastoff, lv, rounds, gen, sleep>>
Spur(w) == /\ Spurious /\ sleep[w] # "" /\ Sleep(w, "") /\ Silent
           /\ UNCHANGED <<stream, bar, user, pc, lastt, off, lastoff, lv, rounds, gen>>

(* ---------------------------------------------------------------- the user *)
(* operations which follow in completion callbacks belong to the one the user starts *)
RECURSIVE Chain(_)
Chain(i) == IF i < Len(script) /\ script[i + 1].cb THEN Chain(i + 1) ELSE i
UStart == /\ upc = "next" /\ opi < Len(script)
          /\ opi' = opi + 1 /\ size' = script[opi + 1].nb /\ upto' = Chain(opi + 1)
          /\ upc' = "trig" /\ Emit(<<"start", 0, script[opi + 1].nb, EP, 0>>, "start")
          /\ UNCHANGED <<trig, quit, cur, err, finz, cbset, bar, work, script, nowcb, doneops, prog>>
UTrig == /\ upc = "trig" /\ trig' = trig + 1 /\ Notify("trig")
         /\ upc' = (IF script[opi].how = "nofin" THEN "dtor" ELSE "fin0") /\ Silent
         /\ UNCHANGED <<quit, cur, size, err, finz, cbset, bar, pc, lastt, off, lastoff, lv, rounds, gen, script, opi, upto, nowcb, doneops, prog>>
UFin0 == /\ upc = "fin0" /\ upc' = "fin" /\ prog' = script[opi].how
         /\ Emit(<<"fin", 0, CN(script[opi]), 0, 0>>, S("fin", CN(script[opi])))
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, nowcb, doneops>>
UFin == /\ upc = "fin" /\ finz' = TRUE /\ cbset' = TRUE /\ Notify("trig")
        /\ cur' = IF prog \in {"cancel", "cancelnowait"} THEN BIG ELSE cur
        /\ upc' = "fine" /\ Silent
        /\ UNCHANGED <<trig, quit, size, err, bar, pc, lastt, off, lastoff, lv, rounds, gen, script, opi, upto, nowcb, doneops, prog>>
UFine == /\ upc = "fine" /\ upc' = IF prog \in {"nowait", "cancelnowait"} THEN "dtor" ELSE "wait"
         /\ Emit(<<"fine", 0, IF prog \in {"cancel", "cancelnowait"} THEN 1 ELSE 0, 0, 0>>, "fine")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, nowcb, doneops, prog>>
UWait == /\ upc = "wait" /\ doneops = upto /\ upc' = (IF opi = Len(script) THEN "dtor" ELSE "next") /\ Silent
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, nowcb, doneops, prog>>
UDtor == /\ upc = "dtor" /\ upc' = "dtor2" /\ Emit(<<"dtor", 0, 0, 0, 0>>, "dtor")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, nowcb, doneops, prog>>
UQuit == /\ upc = "dtor2" /\ upc' = "join" /\ quit' = TRUE /\ cur' = BIG /\ bint' = TRUE
         /\ sleep' = [x \in Workers |-> ""] /\ Silent
         /\ UNCHANGED <<trig, size, err, finz, cbset, bcount, bgen, pc, lastt, off, lastoff, lv, rounds, gen, script, opi, upto, nowcb, doneops, prog>>
UJoin == /\ upc = "join" /\ \A w \in Workers : pc[w] = "gone"
         /\ upc' = "over" /\ Emit(<<"dtore", 0, 0, 0, 0>>, "dtore")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, nowcb, doneops, prog>>
Over == upc = "over" /\ UNCHANGED vars

Worker(w) == Loop(w) \/ Trig(w) \/ Size(w) \/ Grab(w) \/ Epoch(w) \/ Round(w) \/ RoundW(w) \/ Rounded(w) \/ Have(w) \/ Call(w)
             \/ Called(w) \/ Fail(w) \/ Cb(w) \/ Cbe(w) \/ Wait(w) \/ Bar(w) \/ BarW(w) \/ Exit(w)
             \/ (w = Leader /\ (Lead \/ Done \/ NStart \/ NTrig \/ NFin0 \/ NFin \/ NFine \/ Donee))
User == UStart \/ UTrig \/ UFin0 \/ UFin \/ UFine \/ UWait \/ UDtor \/ UQuit \/ UJoin
Next == User \/ (\E w \in Workers : Worker(w) \/ Spur(w)) \/ Over
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(User) /\ \A w \in Workers : WF_vars(Worker(w))

InvOnce == OnceThenDone(m)
InvEpoch == EpochOrder(m)
InvFailures == FailuresReported(m)
InvEnd == Terminates(m)
NothingBad == m.bad = {}
Termination == <>(upc = "over")

(* ---------------------------------------------------------------- generation *)
Rnd(X) == {RandomElement(X)}
GOp(first, last) ==
  LET nb == RandomElement(0..MaxNb) IN
  [nb |-> nb, fails |-> IF nb > 0 /\ RandomElement(1..3) = 1 THEN {RandomElement(0..nb-1)} ELSE {},
   how |-> IF last THEN RandomElement({"fin", "fin", "cancel", "nofin", "nowait", "cancelnowait"}) ELSE RandomElement({"fin", "cancel"}),
   cb |-> FALSE]
GInit == /\ \E k \in Rnd(1..MaxOps) : script = [i \in 1..k |-> LET o == GOp(i = 1, i = k) IN
                  IF i > 1 /\ Waits(o) /\ RandomElement(1..2) = 1 THEN [o EXCEPT !.cb = TRUE] ELSE o]
         /\ Init0
GNext == IF upc = "over"
         THEN /\ upc' = "printed" /\ PrintT("PLAN " \o ToJson([n |-> N, ep |-> EP, script |-> script, log |-> log]))
              /\ UNCHANGED <<script, opi, stream, bar, work, upto, nowcb, doneops, prog, m, log>>
         ELSE upc # "printed" /\ (User \/ \E w \in Workers : Worker(w))
GSpec == GInit /\ [][GNext]_vars
=============================================================================
