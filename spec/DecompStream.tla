----------------------------- MODULE DecompStream -----------------------------
(***************************************************************************)
(* The design of the decompression stream: N workers fed from a queue by   *)
(* the user.  As in CompStream, each action is one critical section or one *)
(* unprotected access, sleepers of condition variables are modelled, and   *)
(* every action reports what the user observes to DecompMonitor.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC, DecompMonitor

CONSTANTS N, MaxPush, MaxOps, MaxFails, Spurious, Logging

Workers == 1..N
Leader == 1
(* pushes: number of blocks pushed; fails: those which fail; at: after how many pushes the user lets everything settle (-1: never) *)
OpSet == [np : 0..MaxPush, fails : {F \in SUBSET (0..MaxPush-1) : Cardinality(F) <= MaxFails},
          how : {"fin", "cancel", "nofin", "nowait", "cancelnowait"}, cb : BOOLEAN]
OkOp(o) == o.fails \subseteq 0..(o.np - 1)
Waits(o) == o.how \in {"fin", "cancel"}
Scripts == {s \in UNION {[1..k -> {o \in OpSet : OkOp(o)}] : k \in 1..MaxOps} :
              /\ \A i \in 1..Len(s) - 1 : Waits(s[i])
              /\ ~s[1].cb
              /\ \A i \in 2..Len(s) : s[i].cb => Waits(s[i])}

VARIABLES script, opi, trig, quit, queue, err, finz,
          bcount, bgen, bint,
          pc, lastt, blk, gen, sleep,
          upc, upto, pushed, doneops, mine,     \* mine: the operation the user is in
          m, log
stream == <<trig, quit, queue, err, finz>>
bar == <<bcount, bgen, bint>>
work == <<pc, lastt, blk, gen, sleep>>
user == <<script, opi, upc, upto, pushed, doneops, mine>>
vars == <<script, opi, trig, quit, queue, err, finz, bcount, bgen, bint, pc, lastt, blk, gen, sleep, upc, upto, pushed, doneops, mine, m, log>>

Emit(e, what) == m' = Step(m, e) /\ log' = IF Logging THEN Append(log, what) ELSE log
Silent == UNCHANGED <<m, log>>
S(k, x) == k \o ":" \o ToString(x)
Init0 == /\ opi = 0 /\ trig = 0 /\ quit = FALSE /\ queue = <<>> /\ err = FALSE /\ finz = FALSE
         /\ bcount = 0 /\ bgen = 0 /\ bint = FALSE
         /\ pc = [w \in Workers |-> "loop"] /\ lastt = [w \in Workers |-> 0] /\ blk = [w \in Workers |-> 0]
         /\ gen = [w \in Workers |-> 0] /\ sleep = [w \in Workers |-> ""]
         /\ upc = "next" /\ upto = 0 /\ pushed = 0 /\ doneops = 0 /\ mine = 0
         /\ m = M0(N) /\ log = <<>>
Init == script \in Scripts /\ Init0

Goto(w, l) == pc' = [pc EXCEPT ![w] = l]
Notify(q) == sleep' = [x \in Workers |-> IF sleep[x] = q THEN "" ELSE sleep[x]]
NotifyOne(q) == IF \E x \in Workers : sleep[x] = q
                THEN \E x \in Workers : sleep[x] = q /\ sleep' = [sleep EXCEPT ![x] = ""]
                ELSE UNCHANGED sleep
Sleep(w, q) == sleep' = [sleep EXCEPT ![w] = q]

Loop(w) == /\ pc[w] = "loop" /\ IF quit THEN Goto(w, "exit") ELSE Goto(w, "trig")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
Trig(w) == /\ pc[w] = "trig" /\ sleep[w] = ""
           /\ IF trig # lastt[w] \/ quit
              THEN lastt' = [lastt EXCEPT ![w] = trig] /\ Goto(w, "pop") /\ UNCHANGED sleep
              ELSE Sleep(w, "trig") /\ UNCHANGED <<pc, lastt>>
           /\ Silent /\ UNCHANGED <<stream, bar, user, blk, gen>>
Pop(w) == /\ pc[w] = "pop" /\ sleep[w] = ""
          /\ IF queue # <<>> \/ finz \/ quit
             THEN IF (finz /\ queue = <<>>) \/ quit
                  THEN Goto(w, "bar") /\ UNCHANGED <<queue, blk, sleep>>
                  ELSE blk' = [blk EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue) /\ Goto(w, "call") /\ UNCHANGED sleep
             ELSE Sleep(w, "queue") /\ UNCHANGED <<pc, queue, blk>>
          /\ Silent /\ UNCHANGED <<trig, quit, err, finz, bar, user, lastt, gen>>
Fails(o) == o \in script[opi].fails
Call(w) == /\ pc[w] = "call" /\ Goto(w, "called") /\ Emit(<<"beg", w, blk[w], 0, 0>>, S("beg", blk[w]))
           /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
Called(w) == /\ pc[w] = "called" /\ Goto(w, IF Fails(blk[w]) THEN "fail" ELSE "pop")
             /\ Emit(<<"end", w, blk[w], IF Fails(blk[w]) THEN 0 ELSE 1, 0>>, S("end", blk[w]))
             /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
Fail(w) == /\ pc[w] = "fail" /\ err' = TRUE /\ queue' = <<>> /\ Goto(w, "pop")
           /\ Silent /\ UNCHANGED <<trig, quit, finz, bar, user, lastt, blk, gen, sleep>>
Arrive(w, wait, after) ==
  /\ IF bcount + 1 = N
     THEN /\ bcount' = 0 /\ bgen' = bgen + 1 /\ Notify("bar") /\ Goto(w, after) /\ UNCHANGED gen
     ELSE /\ bcount' = bcount + 1 /\ gen' = [gen EXCEPT ![w] = bgen] /\ Goto(w, wait) /\ UNCHANGED <<sleep, bgen>>
  /\ UNCHANGED bint
Pass(w, after) == /\ sleep[w] = ""
                  /\ IF bgen # gen[w] \/ bint THEN Goto(w, after) /\ UNCHANGED sleep ELSE Sleep(w, "bar") /\ UNCHANGED pc
Bar(w) == /\ pc[w] = "bar" /\ Arrive(w, "barW", IF w = Leader THEN "lead" ELSE "loop")
          /\ Silent /\ UNCHANGED <<stream, user, lastt, blk>>
BarW(w) == /\ pc[w] = "barW" /\ Pass(w, IF w = Leader THEN "lead" ELSE "loop")
           /\ Silent /\ UNCHANGED <<stream, bar, user, lastt, blk, gen>>
Lead == /\ pc[Leader] = "lead"
        /\ IF quit THEN Goto(Leader, "loop") /\ UNCHANGED stream
           ELSE /\ err' = FALSE /\ finz' = FALSE /\ UNCHANGED <<trig, quit, queue>>
                /\ Goto(Leader, IF err THEN "done0" ELSE "done1")
        /\ Silent /\ UNCHANGED <<bar, user, lastt, blk, gen, sleep>>
Done == /\ pc[Leader] \in {"done0", "done1"}
        /\ LET s == IF pc[Leader] = "done1" THEN 1 ELSE 0 IN Emit(<<"done", Leader, s, 1, 0>>, S("done", s))
        /\ Goto(Leader, IF opi < Len(script) /\ script[opi + 1].cb THEN "nstart" ELSE "donee")
        /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
(* the next operation from within the completion callback: start, pushes, finalize *)
NStart == /\ pc[Leader] = "nstart" /\ opi' = opi + 1 /\ pushed' = 0 /\ trig' = trig + 1 /\ Notify("trig")
          /\ Goto(Leader, "npush") /\ Emit(<<"start", Leader, 0, 0, 0>>, "start")
          /\ UNCHANGED <<quit, queue, err, finz, bar, script, upc, upto, doneops, mine, lastt, blk, gen>>
DoPush(o) == IF err THEN UNCHANGED <<queue, sleep>>
             ELSE queue' = Append(queue, o) /\ NotifyOne("queue")
NPush == /\ pc[Leader] = "npush" /\ pushed < script[opi].np /\ Goto(Leader, "npushing") /\ Emit(<<"push", Leader, pushed, 0, 0>>, S("push", pushed))
         /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
NPushing == /\ pc[Leader] = "npushing" /\ DoPush(pushed)
            /\ Goto(Leader, IF err THEN "nrefused" ELSE "npushed") /\ Silent
            /\ UNCHANGED <<trig, quit, err, finz, bar, user, lastt, blk, gen>>
NPushed == /\ pc[Leader] \in {"npushed", "nrefused"} /\ pushed' = pushed + 1 /\ Goto(Leader, "npush")
           /\ Emit(<<"pushe", Leader, pushed, IF pc[Leader] = "npushed" THEN 1 ELSE 0, 0>>, "pushe")
           /\ UNCHANGED <<stream, bar, script, opi, upc, upto, doneops, mine, lastt, blk, gen, sleep>>
Cancels(o) == o.how \in {"cancel", "cancelnowait"}
CN(o) == IF Cancels(o) THEN 1 ELSE 0
NFin0 == /\ pc[Leader] = "npush" /\ pushed = script[opi].np /\ Goto(Leader, "nfin")
         /\ Emit(<<"fin", Leader, CN(script[opi]), 0, 0>>, S("fin", CN(script[opi])))
         /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
NFin == /\ pc[Leader] = "nfin" /\ finz' = TRUE /\ Notify("queue") /\ queue' = IF Cancels(script[opi]) THEN <<>> ELSE queue
        /\ Goto(Leader, "nfine") /\ Silent
        /\ UNCHANGED <<trig, quit, err, bar, user, lastt, blk, gen>>
NFine == /\ pc[Leader] = "nfine" /\ Goto(Leader, "donee") /\ Emit(<<"fine", Leader, CN(script[opi]), 0, 0>>, "fine")
         /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
Donee == /\ pc[Leader] = "donee" /\ Goto(Leader, "loop") /\ doneops' = doneops + 1 /\ Silent
         /\ UNCHANGED <<stream, bar, script, opi, upc, upto, pushed, mine, lastt, blk, gen, sleep>>
Exit(w) == /\ pc[w] = "exit" /\ Goto(w, "gone") /\ Emit(<<"exit", w, 0, 0, 0>>, "exit")
           /\ UNCHANGED <<stream, bar, user, lastt, blk, gen, sleep>>
Spur(w) == /\ Spurious /\ sleep[w] # "" /\ Sleep(w, "") /\ Silent
           /\ UNCHANGED <<stream, bar, user, pc, lastt, blk, gen>>

RECURSIVE Chain(_)
Chain(i) == IF i < Len(script) /\ script[i + 1].cb THEN Chain(i + 1) ELSE i
UStart == /\ upc = "next" /\ opi < Len(script)
          /\ opi' = opi + 1 /\ mine' = opi + 1 /\ upto' = Chain(opi + 1) /\ pushed' = 0
          /\ upc' = "trig" /\ Emit(<<"start", 0, 0, 0, 0>>, "start")
          /\ UNCHANGED <<stream, bar, work, script, doneops>>
UTrig == /\ upc = "trig" /\ trig' = trig + 1 /\ Notify("trig") /\ upc' = "push" /\ Silent
         /\ UNCHANGED <<quit, queue, err, finz, bar, pc, lastt, blk, gen, script, opi, upto, pushed, doneops, mine>>
UPush == /\ upc = "push" /\ pushed < script[mine].np /\ upc' = "pushing" /\ Emit(<<"push", 0, pushed, 0, 0>>, S("push", pushed))
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
UPushing == /\ upc = "pushing" /\ DoPush(pushed) /\ upc' = (IF err THEN "refused" ELSE "pushed") /\ Silent
            /\ UNCHANGED <<trig, quit, err, finz, bar, pc, lastt, blk, gen, script, opi, upto, pushed, doneops, mine>>
UPushed == /\ upc \in {"pushed", "refused"} /\ pushed' = pushed + 1 /\ upc' = "push"
           /\ Emit(<<"pushe", 0, pushed, IF upc = "pushed" THEN 1 ELSE 0, 0>>, "pushe")
           /\ UNCHANGED <<stream, bar, work, script, opi, upto, doneops, mine>>
(* every worker waits for something to do *)
Settled == \A w \in Workers : sleep[w] # "" \/ pc[w] = "gone"
USettle == /\ upc = "push" /\ Settled /\ pushed < script[mine].np /\ ~m.settledfail
           /\ Emit(<<"settled", 0, 0, 0, 0>>, "settled")
           /\ UNCHANGED <<stream, bar, work, user>>
UFin0 == /\ upc = "push" /\ pushed = script[mine].np
         /\ IF script[mine].how = "nofin" THEN upc' = "dtor" /\ Silent
            ELSE upc' = "fin" /\ Emit(<<"fin", 0, CN(script[mine]), 0, 0>>, S("fin", CN(script[mine])))
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
UFin == /\ upc = "fin" /\ finz' = TRUE /\ Notify("queue") /\ queue' = IF Cancels(script[mine]) THEN <<>> ELSE queue
        /\ upc' = "fine" /\ Silent
        /\ UNCHANGED <<trig, quit, err, bar, pc, lastt, blk, gen, script, opi, upto, pushed, doneops, mine>>
UFine == /\ upc = "fine" /\ upc' = (IF Waits(script[mine]) THEN "wait" ELSE "dtor")
         /\ Emit(<<"fine", 0, CN(script[mine]), 0, 0>>, "fine")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
UWait == /\ upc = "wait" /\ doneops = upto /\ upc' = (IF opi = Len(script) THEN "dtor" ELSE "next") /\ Silent
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
UDtor == /\ upc = "dtor" /\ upc' = "dtor2" /\ Emit(<<"dtor", 0, 0, 0, 0>>, "dtor")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
UQuit == /\ upc = "dtor2" /\ upc' = "join" /\ quit' = TRUE /\ bint' = TRUE
         /\ sleep' = [x \in Workers |-> ""] /\ Silent
         /\ UNCHANGED <<trig, queue, err, finz, bcount, bgen, pc, lastt, blk, gen, script, opi, upto, pushed, doneops, mine>>
UJoin == /\ upc = "join" /\ \A w \in Workers : pc[w] = "gone"
         /\ upc' = "over" /\ Emit(<<"dtore", 0, 0, 0, 0>>, "dtore")
         /\ UNCHANGED <<stream, bar, work, script, opi, upto, pushed, doneops, mine>>
Over == upc = "over" /\ UNCHANGED vars

Worker(w) == Loop(w) \/ Trig(w) \/ Pop(w) \/ Call(w) \/ Called(w) \/ Fail(w) \/ Bar(w) \/ BarW(w) \/ Exit(w)
             \/ (w = Leader /\ (Lead \/ Done \/ NStart \/ NPush \/ NPushing \/ NPushed \/ NFin0 \/ NFin \/ NFine \/ Donee))
User == UStart \/ UTrig \/ UPush \/ UPushing \/ UPushed \/ USettle \/ UFin0 \/ UFin \/ UFine \/ UWait \/ UDtor \/ UQuit \/ UJoin
Next == User \/ (\E w \in Workers : Worker(w) \/ Spur(w)) \/ Over
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ WF_vars(User) /\ \A w \in Workers : WF_vars(Worker(w))

NothingBad == m.bad = {}
(* success means that every accepted block has been processed *)
AllProcessed == (\E w \in Workers : pc[w] = "done1" /\ ~m.want) => m.acc \subseteq m.ended
Termination == <>(upc = "over")

Rnd(X) == {RandomElement(X)}
GOp(last) ==
  LET np == RandomElement(0..MaxPush) IN
  [np |-> np, fails |-> IF np > 0 /\ RandomElement(1..3) = 1 THEN {RandomElement(0..np-1)} ELSE {},
   how |-> IF last THEN RandomElement({"fin", "fin", "cancel", "nofin", "nowait", "cancelnowait"}) ELSE RandomElement({"fin", "cancel"}),
   cb |-> FALSE]
GInit == /\ \E k \in Rnd(1..MaxOps) : script = [i \in 1..k |-> LET o == GOp(i = k) IN
                  IF i > 1 /\ Waits(o) /\ RandomElement(1..2) = 1 THEN [o EXCEPT !.cb = TRUE] ELSE o]
         /\ Init0
GNext == IF upc = "over"
         THEN /\ upc' = "printed" /\ PrintT("PLAN " \o ToJson([n |-> N, ep |-> 0, script |-> script, log |-> log]))
              /\ UNCHANGED <<script, opi, stream, bar, work, upto, pushed, doneops, mine, m, log>>
         ELSE upc # "printed" /\ ((User /\ ~(upc = "push" /\ upc' = "push")) \/ \E w \in Workers : Worker(w))
GSpec == GInit /\ [][GNext]_vars
=============================================================================
