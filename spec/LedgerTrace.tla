----------------------------- MODULE LedgerTrace -----------------------------
(***************************************************************************)
(* Recorded rounds: live[k] is what is held after round k, one number per  *)
(* kind of thing: blocks of memory, bytes, descriptors, threads, objects.  *)
(***************************************************************************)
EXTENDS LedgerMonitor, SequencesExt, TLC, Json, IOUtils
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i
R == Recs[rec]
Held(k) == FoldLeft(LAMBDA m, v : TLCEval(Update(m, Len(R.live), m.n + 1, v[k]) @@ [n |-> m.n + 1]), Nothing @@ [n |-> 0], R.live)
Init == rec \in 1..Len(Recs) /\ i = 0
Next == i = 0 /\ i' = 1 /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, i>>
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, held |-> IF R.live = <<>> THEN <<>> ELSE [k \in 1..5 |-> Held(k)]]
InvNoFault == R.fault = 0
InvReturned == \A k \in 1..5 : R.live # <<>> => ~Grows(Held(k), Len(R.live))
=============================================================================
