------------------------------- MODULE HwTrace -------------------------------
(***************************************************************************)
(* Recorded programs of the real hardware back ends, fed to the monitor.   *)
(***************************************************************************)
EXTENDS HwMonitor, Json, IOUtils, TLC
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i, m
vars == <<rec, i, m>>
R == Recs[rec]
Init == rec \in 1..Len(Recs) /\ i = 0 /\ m = M0(1..16, Recs[rec].aix = 1)
Next == /\ i < Len(R.ev) /\ i' = i + 1 /\ m' = Step(m, R.ev[i + 1]) /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, event |-> IF i > 0 THEN R.ev[i] ELSE <<>>, bad |-> m.bad]
InvC18 == m.bad = {}
InvNoCrash == R.fault = 0
(* everything that was started has ended and given back what it had *)
InvAllGone == (i = Len(R.ev) /\ R.fault = 0) => \A t \in 1..16 : m.th[t].gone \/ m.th[t] = T0
=============================================================================
