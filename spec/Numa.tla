-------------------------------- MODULE Numa --------------------------------
(***************************************************************************)
(* How the threads of a stream are spread among the NUMA nodes.             *)
(*                                                                         *)
(* A machine is a sequence of nodes, each with the processors that belong   *)
(* to it and are online, and with memory that the process may or may not    *)
(* use; a node may have memory only, and the numbers of the processors have *)
(* gaps where processors are offline.                                       *)
(*   Spec   the design, for every small machine and every failure           *)
(*   GSpec  writes machines that the real code is run on                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxNodes, MaxCpus, MaxThreads

Usable(m) == {n \in DOMAIN m.nodes : m.nodes[n].mem = 1 /\ m.nodes[n].cpus # {}}
Spreads(m) == m.avail = 1 /\ Usable(m) # {}
(* pins: thread -> set of processors it was confined to, for those that were *)
On(pins, cpus) == Cardinality({t \in DOMAIN pins : pins[t] = cpus})
ToNodes(m, pins) == \A t \in DOMAIN pins : Spreads(m) /\ \E n \in Usable(m) : pins[t] = m.nodes[n].cpus
Evenly(m, n, pins) == Spreads(m) => /\ DOMAIN pins = 1..n
                                    /\ \A a, b \in Usable(m) : On(pins, m.nodes[a].cpus) <= On(pins, m.nodes[b].cpus) + 1

VARIABLES m, n, pins, failed, done
vars == <<m, n, pins, failed, done>>
Machines == {x \in [nodes : UNION {[1..k -> [cpus : SUBSET (0..MaxCpus - 1), mem : {0, 1}]] : k \in 1..MaxNodes}, avail : {0, 1}] :
               \A a, b \in DOMAIN x.nodes : a # b => x.nodes[a].cpus \cap x.nodes[b].cpus = {}}
Init == m \in Machines /\ n \in 1..MaxThreads /\ pins = <<>> /\ failed = FALSE /\ done = FALSE
RECURSIVE Nth(_, _)
Nth(S, k) == LET x == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 0 THEN x ELSE Nth(S \ {x}, k - 1)
Pin == /\ ~done /\ Spreads(m) /\ Len(pins) < n
       /\ \/ pins' = Append(pins, m.nodes[Nth(Usable(m), Len(pins) % Cardinality(Usable(m)))].cpus) /\ UNCHANGED <<failed, done>>
          \/ failed' = TRUE /\ done' = TRUE /\ UNCHANGED pins
       /\ UNCHANGED <<m, n>>
End == ~done /\ (~Spreads(m) \/ Len(pins) = n) /\ done' = TRUE /\ UNCHANGED <<m, n, pins, failed>>
Next == Pin \/ End
Spec == Init /\ [][Next]_vars
InvNodes  == ToNodes(m, pins)
InvEvenly == (done /\ ~failed) => Evenly(m, n, pins)
InvBefore == \A k \in 1..Len(pins) : Evenly(m, k, SubSeq(pins, 1, k))

(* machines: the numbers of the processors go node after node, or round the nodes; every 2nd or 4th may be all that is online *)
GInit == \E k \in 1..6, per \in 1..8, smt \in {1, 2, 4, 8}, round \in BOOLEAN :
           /\ n \in 1..MaxThreads /\ pins = <<k, per, smt, IF round THEN 1 ELSE 0>> /\ failed = FALSE /\ done = FALSE
           /\ m = [nodes |-> <<>>, avail |-> IF n = 3 /\ per = 1 THEN 0 ELSE 1]
Numbers(k, per, smt, round, i) == IF round = 1 THEN {(j * k + i - 1) * smt : j \in 0..per - 1} ELSE {((i - 1) * per + j) * smt : j \in 0..per - 1}
GNext == /\ ~done
         /\ IF Len(m.nodes) < pins[1]
            THEN /\ \E kind \in {"node", "node2", "node3", "memory", "cpus", "half", "absent"} :
                      LET all == Numbers(pins[1], pins[2], pins[3], pins[4], Len(m.nodes) + 1)
                          x == [cpus |-> CASE kind \in {"memory", "absent"} -> {} [] kind = "half" -> {c \in all : (c \div pins[3]) % 2 = 0} [] OTHER -> all,
                                mem |-> IF kind \in {"cpus", "absent"} THEN 0 ELSE 1]
                      IN m' = [m EXCEPT !.nodes = Append(@, x)]
                 /\ UNCHANGED done
            ELSE \E f \in {0, 0 - 1, 0 - 2} \cup 1..n :
                   done' = TRUE /\ UNCHANGED m /\ PrintT("HIST " \o ToJson([nodes |-> m.nodes, avail |-> m.avail, n |-> n, fail |-> IF f < 0 THEN 0 ELSE f]))
         /\ UNCHANGED <<n, pins, failed>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
