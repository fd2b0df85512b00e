------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Nothing accumulates: calls, operations and objects give back what they  *)
(* took - memory, descriptors, threads, objects of the OpenCL runtime -    *)
(* whichever way they end.                                                 *)
(*                                                                         *)
(* The design is a user and a library: objects are constructed and         *)
(* destroyed, refused half-way, used, used in vain, cancelled, and left    *)
(* with work still queued.  Leak names the release that is forgotten.      *)
(* The monitor is quiet if nothing is forgotten, and objects whenever the  *)
(* forgotten release occurs in a round.                                    *)
(***************************************************************************)
EXTENDS LedgerMonitor, FiniteSets
CONSTANTS N,        \* rounds
          MaxOps    \* operations in a round

Ops == {"call", "fail", "refused", "new", "use", "usefail", "push", "cancel", "delete"}
Leaks == {"none", "call", "fail", "refused", "use", "usefail", "cancel", "delete", "queued"}
VARIABLES prog, leak, round, pc, object, queued, lost, cache, mon
vars == <<prog, leak, round, pc, object, queued, lost, cache, mon>>

\* a round ends without an object, and uses one only while there is one
RECURSIVE Sensible(_, _, _)
Sensible(p, k, alive) ==
  IF k > Len(p) THEN ~alive
  ELSE CASE p[k] = "new" -> ~alive /\ Sensible(p, k + 1, TRUE)
         [] p[k] = "delete" -> alive /\ Sensible(p, k + 1, FALSE)
         [] p[k] \in {"use", "usefail", "push", "cancel"} -> alive /\ Sensible(p, k + 1, TRUE)
         [] OTHER -> Sensible(p, k + 1, alive)
Programs == {p \in UNION {[1..n -> Ops] : n \in 1..MaxOps} : Sensible(p, 1, FALSE)}

Init == prog \in Programs /\ leak \in Leaks /\ round = 1 /\ pc = 1 /\ object = 0 /\ queued = 0 /\ lost = 0 /\ cache = 0 /\ mon = Nothing
Lose(b, n) == IF b THEN n ELSE 0
Do ==
  /\ pc <= Len(prog)
  /\ pc' = pc + 1
  /\ LET o == prog[pc] IN
     /\ object' = CASE o = "new" -> 3 [] o = "delete" -> 0 [] OTHER -> object
     /\ queued' = CASE o = "push" -> queued + 1 [] o \in {"cancel", "delete", "use"} -> 0 [] OTHER -> queued
     /\ lost' = lost + CASE o \in {"call", "fail", "refused", "use", "usefail"} -> Lose(leak = o, 1)
                         [] o = "cancel" -> Lose(leak = o, queued)
                         [] o = "delete" -> Lose(leak = o, 1) + Lose(leak = "queued", queued)
                         [] OTHER -> 0
  /\ UNCHANGED <<prog, leak, round, cache, mon>>
EndOfRound ==
  /\ pc > Len(prog) /\ round <= N
  /\ cache' \in 0..Kept(N)
  /\ mon' = Update(mon, N, round, object + queued + lost + cache')
  /\ round' = round + 1 /\ pc' = 1
  /\ UNCHANGED <<prog, leak, object, queued, lost>>
Spec == Init /\ [][Do \/ EndOfRound]_vars

\* whether the forgotten release matters in the program
Matters == \E k \in DOMAIN prog :
  \/ prog[k] = leak /\ leak # "cancel"
  \/ leak = "cancel" /\ prog[k] = "cancel" /\ k > 1 /\ prog[k - 1] = "push"
  \/ leak = "queued" /\ prog[k] = "delete" /\ k > 1 /\ prog[k - 1] = "push"
Never == ~\E k \in DOMAIN prog : prog[k] = leak \/ (leak = "queued" /\ \E j \in DOMAIN prog : prog[j] = "push")
DIdle == pc = 1 => object = 0 /\ queued = 0
DExact == round > N =>
  /\ lost = 0 => ~Grows(mon, N)
  /\ Matters => Grows(mon, N)
  /\ Never => lost = 0

=============================================================================
