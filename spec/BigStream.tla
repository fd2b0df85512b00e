------------------------------ MODULE BigStream ------------------------------
(***************************************************************************)
(* What an operation of a stream yields, whatever its size, the number of  *)
(* its threads and their schedule: judged for operations with thousands of *)
(* blocks - data beyond 4 GiB - and hundreds of threads, on which the real *)
(* streams ran freely.  (The monitors judge small ones event by event.)    *)
(*  cancel: 1 the operation was cancelled, 2 the stream was destroyed (then *)
(*  done: the destructor returned)                                         *)
(*  "C" nb blocks; failing: the block whose call fails, -1 none; given: in *)
(*      the order of the callbacks, <<block, number of its first chunk>>   *)
(*  "B" per round <<arrived, at least and at most, as one left; left>>     *)
(*  "L" <<count, count downs, waiters through too early, through>>         *)
(*  "D" pushed, found: <<block, its 16 chunks>>; -2 nothing, -1 rubbish    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, Json, TLC
CONSTANT RecFile
Recs == ndJsonDeserialize(RecFile)
VARIABLES rec, i
R == Recs[rec]
O == R.ops[i]
Init == rec \in 1..Len(Recs) /\ i = 0
Next == i < Len(R.ops) /\ i' = i + 1 /\ UNCHANGED rec
Spec == Init /\ [][Next]_<<rec, i>>
View == <<rec, i>>
Op(t) == R.t = t /\ i > 0
Brief == IF i = 0 THEN <<>>
         ELSE IF R.t = "C" THEN <<O.nb, O.failing, O.cancel, Len(O.given), O.done, O.ok, O.early, O.strays, SelectSeq(O.given, LAMBDA g : g[2] # 16 * g[1])>>
         ELSE IF R.t \in {"B", "L"} THEN O
         ELSE <<Len(O.pushed), Len(O.found), O.done, O.ok, O.early, O.strays, O.refused>>
Shown == [rec |-> rec, id |-> R.id, step |-> i, job |-> R.job, op |-> Brief]

Blocks(s) == {s[k][1] : k \in DOMAIN s}
Fine(s) == SelectSeq(s, LAMBDA g : g[1] # -1)
(* C08 *)
Exactly(s, nb) == Len(s) = nb /\ Blocks(s) = 0..(nb - 1)
AtMost(s, nb) == Cardinality(Blocks(s)) = Len(s) /\ Blocks(s) \subseteq 0..(nb - 1)
InvOnce == Op("C") =>
  /\ O.strays = 0 /\ O.early = 0 /\ O.done = 1
  /\ \A k \in DOMAIN O.given : O.given[k][1] = -1 \/ O.given[k][2] = 16 * O.given[k][1]
  /\ AtMost(Fine(O.given), O.nb)
  /\ O.failing = -1 /\ O.cancel # 2 => O.ok = 1 /\ Fine(O.given) = O.given /\ (O.cancel = 0 => Exactly(O.given, O.nb))
(* C09: while a block of an epoch is given, all those of the epochs before have been                      *)
(* (how many were given of an epoch suffices, as none is given twice)                                      *)
Ordered(s, nb, ep) ==
  FoldLeft(LAMBDA a, g : LET e == g[1] \div ep
                         IN IF ~a.ok \/ g[1] = -1 \/ e < a.e THEN [a EXCEPT !.ok = a.ok /\ (g[1] = -1 \/ e >= a.e)]
                            ELSE IF e = a.e THEN [a EXCEPT !.n = @ + 1]
                            ELSE [ok |-> e = a.e + 1 /\ a.n = ep, e |-> e, n |-> 1],
           [ok |-> TRUE, e |-> 0, n |-> 0], s).ok
InvEpoch == Op("C") /\ R.ep > 0 /\ O.failing = -1 => Ordered(O.given, O.nb, R.ep)
(* C10 *)
By(s) == FoldLeft(LAMBDA f, x : (x[1] :> x) @@ f, <<>>, s)
Match(want, got) == \A j \in 2..17 : got[j] = want[j]
InvRestored == Op("D") =>
  LET p == By(O.pushed) IN
  /\ O.strays = 0 /\ O.early = 0 /\ O.done = 1
  /\ \A k \in DOMAIN O.found : O.found[k][1] \in DOMAIN p
  /\ \A k \in DOMAIN O.found : LET g == O.found[k] IN \A j \in 2..17 : g[j] = p[g[1]][j] \/ (g[j] = -2 /\ (O.fails = 1 \/ O.cancel # 0)) \/ p[g[1]][j] = -1
  /\ O.fails = 0 => O.refused = 0 /\ (O.cancel # 2 => O.ok = 1)
  /\ O.fails = 0 /\ O.cancel = 0 => \A x \in DOMAIN p : (\A j \in 2..17 : p[x][j] = -2) \/ x \in Blocks(O.found)
(* C11 *)
InvReported ==
  /\ Op("C") => O.done = 1 /\ (O.failing = -1 /\ O.cancel # 2 => O.ok = 1)
                /\ (O.failing # -1 /\ O.failing < O.nb /\ O.cancel = 0 => O.ok = 0 /\ O.failing \notin Blocks(O.given) /\ -1 \in Blocks(O.given))
  /\ Op("D") => O.done = 1 /\ (O.fails = 0 /\ O.cancel # 2 => O.ok = 1) /\ (O.fails = 1 /\ O.cancel = 0 => O.ok = 0)
(* C12: it ends, and nothing happens any more *)
InvEnds == R.t \in {"C", "D"} /\ i > 0 => O.done = 1 /\ O.early = 0 /\ O.strays = 0
(* C13 *)
InvTogether ==
  /\ Op("B") => O = <<R.n, R.n, R.n>>
  /\ Op("L") => O[3] = 0 /\ O[4] = (IF O[2] >= O[1] THEN R.n ELSE 0)
InvNoFault == R.fault = 0
=============================================================================
