--------------------------------- MODULE Sync ---------------------------------
(***************************************************************************)
(* The designs of the barrier (generation counter, interruption) and of    *)
(* the latch, with sleepers and spurious wake-ups, against SyncMonitor.    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, SyncMonitor
CONSTANTS N, R, Interrupts,      \* threads, rounds, whether the barrier gets interrupted
          Count, Waiters         \* latch
T == 1..N
VARIABLES pc, round, gen, sleep, bcount, bgen, bint, ipc, m
bvars == <<pc, round, gen, sleep, bcount, bgen, bint, ipc, m>>
BInit == /\ pc = [t \in T |-> "go"] /\ round = [t \in T |-> 1] /\ gen = [t \in T |-> 0] /\ sleep = [t \in T |-> FALSE]
         /\ bcount = 0 /\ bgen = 0 /\ bint = FALSE /\ ipc = (IF Interrupts THEN "go" ELSE "end") /\ m = B0(N)
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Arr(t) == /\ pc[t] = "go" /\ To(t, "in") /\ m' = BStep(m, <<"arr", t, round[t], 0, 0>>)
          /\ UNCHANGED <<round, gen, sleep, bcount, bgen, bint, ipc>>
In(t) == /\ pc[t] = "in"
         /\ IF bcount + 1 = N
            THEN bcount' = 0 /\ bgen' = (bgen + 1) % 3 /\ sleep' = [x \in T |-> FALSE] /\ To(t, "out") /\ UNCHANGED gen
            ELSE bcount' = bcount + 1 /\ gen' = [gen EXCEPT ![t] = bgen] /\ To(t, "wait") /\ UNCHANGED <<sleep, bgen>>
         /\ UNCHANGED <<round, bint, ipc, m>>
Wait(t) == /\ pc[t] = "wait" /\ ~sleep[t]
           /\ IF bgen # gen[t] \/ bint THEN To(t, "out") /\ UNCHANGED sleep
              ELSE sleep' = [sleep EXCEPT ![t] = TRUE] /\ UNCHANGED pc
           /\ UNCHANGED <<round, gen, bcount, bgen, bint, ipc, m>>
Out(t) == /\ pc[t] = "out" /\ m' = BStep(m, <<"lv", t, round[t], 0, 0>>)
          /\ round' = [round EXCEPT ![t] = @ + 1] /\ To(t, IF round[t] = R THEN "end" ELSE "go")
          /\ UNCHANGED <<gen, sleep, bcount, bgen, bint, ipc>>
Spur(t) == /\ sleep[t] /\ sleep' = [sleep EXCEPT ![t] = FALSE] /\ UNCHANGED <<pc, round, gen, bcount, bgen, bint, ipc, m>>
Interrupt ==
       \/ ipc = "go" /\ ipc' = "in" /\ m' = BStep(m, <<"int", 0, 0, 0, 0>>) /\ UNCHANGED <<pc, round, gen, sleep, bcount, bgen, bint>>
       \/ ipc = "in" /\ ipc' = "out" /\ bint' = TRUE /\ sleep' = [x \in T |-> FALSE] /\ UNCHANGED <<pc, round, gen, bcount, bgen, m>>
       \/ ipc = "out" /\ ipc' = "end" /\ m' = BStep(m, <<"inte", 0, 0, 0, 0>>) /\ UNCHANGED <<pc, round, gen, sleep, bcount, bgen, bint>>
BOver == (\A t \in T : pc[t] = "end") /\ UNCHANGED bvars
Thread(t) == Arr(t) \/ In(t) \/ Wait(t) \/ Out(t)
BNext == (\E t \in T : Thread(t) \/ Spur(t)) \/ Interrupt \/ BOver
BSpec == BInit /\ [][BNext]_bvars
BLive == BInit /\ [][(\E t \in T : Thread(t)) \/ Interrupt \/ BOver]_bvars /\ \A t \in T : WF_bvars(Thread(t)) /\ WF_bvars(Interrupt)
BarrierRight == BarrierOK(m)
(* nobody sleeps once the round has been completed or the barrier interrupted *)
NobodyLeft == \A t \in T : (sleep[t] /\ pc[t] = "wait") => ~bint /\ bgen = gen[t]
AllThrough == <>(\A t \in T : pc[t] = "end")

(* Latch: threads 1..Count count down, Count+1..Count+Waiters wait *)
LT == 1..(Count + Waiters)
LInit == /\ pc = [t \in LT |-> "go"] /\ round = Count /\ gen = 0 /\ sleep = [t \in LT |-> FALSE]
         /\ bcount = 0 /\ bgen = 0 /\ bint = FALSE /\ ipc = "" /\ m = L0(Count)
Down(t) == t <= Count /\
  \/ pc[t] = "go" /\ To(t, "in") /\ m' = LStep(m, <<"cd", t>>) /\ UNCHANGED <<round, gen, sleep, bcount, bgen, bint, ipc>>
  \/ pc[t] = "in" /\ To(t, "out") /\ round' = round - 1 /\ sleep' = [x \in LT |-> FALSE] /\ UNCHANGED <<gen, bcount, bgen, bint, ipc, m>>
  \/ pc[t] = "out" /\ To(t, "end") /\ m' = LStep(m, <<"cde", t>>) /\ UNCHANGED <<round, gen, sleep, bcount, bgen, bint, ipc>>
LWait(t) == t > Count /\
  \/ pc[t] = "go" /\ To(t, "in") /\ m' = LStep(m, <<"wt", t>>) /\ UNCHANGED <<round, gen, sleep, bcount, bgen, bint, ipc>>
  \/ /\ pc[t] = "in" /\ ~sleep[t]
     /\ IF round = 0 THEN To(t, "out") /\ UNCHANGED sleep ELSE sleep' = [sleep EXCEPT ![t] = TRUE] /\ UNCHANGED pc
     /\ UNCHANGED <<round, gen, bcount, bgen, bint, ipc, m>>
  \/ pc[t] = "out" /\ To(t, "end") /\ m' = LStep(m, <<"wte", t>>) /\ UNCHANGED <<round, gen, sleep, bcount, bgen, bint, ipc>>
LSpur(t) == /\ sleep[t] /\ sleep' = [sleep EXCEPT ![t] = FALSE] /\ UNCHANGED <<pc, round, gen, bcount, bgen, bint, ipc, m>>
LOver == (\A t \in LT : pc[t] = "end") /\ UNCHANGED bvars
LNext == (\E t \in LT : Down(t) \/ LWait(t) \/ LSpur(t)) \/ LOver
LSpec == LInit /\ [][LNext]_bvars
LatchRight == LatchOK(m)
=============================================================================
