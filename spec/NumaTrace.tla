------------------------------ MODULE NumaTrace ------------------------------
(***************************************************************************)
(* Recorded constructions of real streams on made-up machines.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i, m, n, pins, failed, done
N == INSTANCE Numa WITH MaxNodes <- 1, MaxCpus <- 1, MaxThreads <- 1
R == Recs[rec]
Set(s) == {s[k] : k \in DOMAIN s}
Machine(r) == [nodes |-> [k \in DOMAIN r.nodes |-> [cpus |-> Set(r.nodes[k].cpus), mem |-> r.nodes[k].mem]], avail |-> r.avail]
Call == R.ev[i + 1]
Init == rec \in 1..Len(Recs) /\ i = 0 /\ m = Machine(Recs[rec]) /\ n = Recs[rec].n /\ pins = <<>> /\ failed = FALSE /\ done = FALSE
(* k: "new" a stream is being made, "pin" one of its threads is confined (rc 0) or that is refused, "made", "used" (ok 1: the operation succeeded) *)
Next == /\ i < Len(R.ev) /\ i' = i + 1 /\ UNCHANGED <<rec, m, n>>
        /\ CASE Call.k = "new"  -> pins' = <<>> /\ failed' = FALSE /\ done' = FALSE
             [] Call.k = "pin"  -> /\ failed' = (failed \/ Call.rc # 0) /\ UNCHANGED done
                                   /\ pins' = (IF Call.rc # 0 THEN pins ELSE (Call.th :> Set(Call.cpus)) @@ pins)
             [] Call.k = "made" -> done' = TRUE /\ UNCHANGED <<pins, failed>>
             [] OTHER           -> UNCHANGED <<pins, failed, done>>
Spec == Init /\ [][Next]_<<rec, i, m, n, pins, failed, done>>
View == <<rec, i>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, machine |-> m, threads |-> n, pins |-> pins, failed |-> failed]
InvNodes == N!ToNodes(m, pins)
(* a call may be refused only where one was planned to be *)
InvEvenly == (done /\ ~failed) => N!Evenly(m, n, pins)
InvAccepted == failed => R.fail > 0
InvWorks == R.fault = 0 /\ (i > 0 => (R.ev[i].k = "used" => R.ev[i].ok = 1))
=============================================================================
