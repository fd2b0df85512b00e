---------------------------- MODULE LedgerMonitor ----------------------------
(***************************************************************************)
(* What is observed of a library that is used over and over are rounds,    *)
(* all alike, and how much is held at the end of each.  A bounded amount   *)
(* may be kept for later (a cache, a workspace per thread); what grows     *)
(* from round to round may not.  The monitor keeps the most that was held  *)
(* in early rounds and the least in late ones, and objects if they are     *)
(* further apart than what may come and go.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
Kept(n) == n \div 4 - 1                       \* this much may come and go
Early(n, k) == k > n \div 8 /\ k <= n \div 4
Late(n, k) == k > n - n \div 4
Nothing == [hi |-> <<>>, lo |-> <<>>]
Update(m, n, k, v) ==
  [hi |-> IF ~Early(n, k) THEN m.hi ELSE IF m.hi = <<>> \/ m.hi[1] < v THEN <<v>> ELSE m.hi,
   lo |-> IF ~Late(n, k) THEN m.lo ELSE IF m.lo = <<>> \/ m.lo[1] > v THEN <<v>> ELSE m.lo]
Grows(m, n) == m.hi # <<>> /\ m.lo # <<>> /\ m.lo[1] - m.hi[1] > Kept(n)

=============================================================================
