----------------------------- MODULE SyncMonitor -----------------------------
(***************************************************************************)
(* What can be observed of the barrier and of the latch.                   *)
(* Barrier:  arr(r) lv(r)  a thread arrives at / leaves its r-th round     *)
(*           int inte      interruption begins, has returned               *)
(* Latch:    cd cde        count down, returned;   wt wte  wait, returned  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

When(c, s) == IF c THEN {s} ELSE {}
MaxThread == 16
B0(n) == [n |-> n, at |-> [t \in 0..MaxThread |-> 0], out |-> [t \in 0..MaxThread |-> 0], int |-> 0, bad |-> {}]
(* rounds complete: those at which every participant has arrived *)
Arrived(m, r) == Cardinality({t \in 1..m.n : m.at[t] >= r}) = m.n
BStep(m, e) ==
  LET k == e[1]  t == e[2]  r == e[3] IN
  CASE k = "arr" -> [m EXCEPT !.at[t] = r]
    [] k = "lv" -> [m EXCEPT !.out[t] = r, !.bad = @ \cup When(m.int = 0 /\ ~Arrived(m, r), "early")]
    [] k = "int" -> [m EXCEPT !.int = 1]
    [] k = "inte" -> [m EXCEPT !.int = 2]
    [] k = "stuck" ->      \* some thread is blocked, and it should not be
         [m EXCEPT !.bad = @ \cup {"stuck"}]
    [] OTHER -> m
BarrierOK(m) == m.bad = {}

L0(count) == [left |-> count, begun |-> 0, ret |-> 0, count |-> count, waiting |-> {}, bad |-> {}]
LStep(m, e) ==
  LET k == e[1]  t == e[2] IN
  CASE k = "cd" -> [m EXCEPT !.begun = @ + 1]
    [] k = "cde" -> [m EXCEPT !.ret = @ + 1]
    [] k = "wt" -> [m EXCEPT !.waiting = @ \cup {t}]
    [] k = "wte" -> [m EXCEPT !.waiting = @ \ {t}, !.bad = @ \cup When(m.begun < m.count, "early")]
    [] k = "stuck" ->      \* waiters may only be blocked as long as the count is not zero
         [m EXCEPT !.bad = @ \cup When(m.ret >= m.count \/ m.begun > m.ret, "stuck")]
    [] OTHER -> m
LatchOK(m) == m.bad = {}
=============================================================================
